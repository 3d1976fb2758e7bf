---------------------------- MODULE PresentTrace ----------------------------
(* Conformance of the serialization entry points: a line holds everything written for one value. *)
EXTENDS Present

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 16
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

\* flat: the type has no element of its own; out: one record per setting
\* [decl, ind, istr, s (the text), w (the same to a writer), x (the nodes)]
PlainD(l, b) == CHOOSE k \in 1..Len(l.out) : l.out[k].decl = b /\ ~l.out[k].ind
Doc(l) == l.out[PlainD(l, FALSE)].s
Checks(l) == [
  declared   |-> HasDecl(l.string) \/ l.string = "",
  document   |-> SameNodes(EncodeDoc(l.T, l.v), l.x),
  undeclared |-> ~HasDecl(Doc(l)) /\ Doc(l) = Undeclared(l.string),
  settings   |-> \A k \in 1..Len(l.out) : LET o == l.out[k] IN ~o.ind => o.s = (IF o.decl THEN l.string ELSE Doc(l)),
  writer     |-> \A k \in 1..Len(l.out) : l.out[k].w = l.out[k].s,
  content    |-> l.hascontent => l.content = (IF l.flat THEN Doc(l) ELSE Inside(Doc(l))),
  wcontent   |-> l.hascontent => l.wcontent = l.content,
  declaration |-> \A k \in 1..Len(l.out) : LET o == l.out[k] IN o.s # "" => HasDecl(o.s) = o.decl,
  sameindent |-> \A k, j \in 1..Len(l.out) : LET o == l.out[k] p == l.out[j] IN
                   (o.ind /\ p.ind /\ o.istr = p.istr /\ o.decl /\ ~p.decl) => NoBreak(Undeclared(o.s)) = NoBreak(p.s),
  indented   |-> \A k \in 1..Len(l.out) : l.out[k].ind => SameNodes(TrimAll(EncodeDoc(l.T, l.v)), TrimAll(Bare(l.out[k].x))),
  layout     |-> l.flat \/ \A k \in 1..Len(l.out) : l.out[k].ind => DocLaidOut(l.out[k].x, l.out[k].istr, l.exact) ]
Failed(l) == LET c == Checks(l) IN {k \in DOMAIN c : ~c[k]}
Verdict(l) == LET f == Failed(l) IN IF f = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l.id, ToJson(f)>>)
Conforms == Verdict(Trace[i])
=============================================================================
