------------------------------ MODULE DeMachine ------------------------------
(* Deserialization as a machine.  It is given the events of a document one at a time and keeps a stack of
   frames, one for each open element (and one for the root elements of a type that has no element of its own).
   Denote says what a whole document means; this says what happens when: what is known after every event,
   when the result is settled, and that whatever follows is not looked at.  DocMC checks that the two agree
   on every document and every truncation of it, within bounds.

   A frame: [k: kind, tn: type or scalar, el: start tag, i: which member of the frame below it is,
             acc: values per field, v: value of an enumeration so far, stop: nothing changes it any more,
             c: content seen that no field claimed]
   The machine: [tn, fs: frames (innermost last), res: <<>> until the result is settled] *)
EXTENDS Denote, Events

NoEl == [k |-> "s", n |-> "", ns |-> "", a |-> <<>>]
MFrame(k, tn, el, i) == [k |-> k, tn |-> tn, el |-> el, i |-> i, acc |-> <<>>, v |-> <<>>, stop |-> FALSE, c |-> <<>>]
MNode(f) == [k |-> "e", ns |-> f.el.ns, n |-> f.el.n, a |-> f.el.a, c |-> f.c]

MStart(tn) == [tn |-> tn, fs |-> <<>>, res |-> <<>>]
MFail(m) == [m EXCEPT !.res = <<Bad>>, !.fs = <<>>]
MDone(m, r) == [m EXCEPT !.res = <<r>>, !.fs = <<>>]
MPush(m, f) == [m EXCEPT !.fs = Append(@, f)]
MTop(m) == m.fs[Len(m.fs)]
MPop(m) == [m EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]

(* ------------------------------------------------------------------ entering *)
\* a value of type tn begins at the start tag el
MEnter(m, tn, el, i) ==
  LET t == T[tn] f == MFrame(t.k, tn, el, i) IN
  CASE t.k = "struct" ->
       LET a0 == AttrFold(t, el.a, [j \in 1..Len(t.fields) |-> <<>>]) IN
       IF a0.err THEN MFail(m) ELSE MPush(m, [f EXCEPT !.acc = a0.acc])
    [] t.k = "enum" /\ t.tag # "" ->
       LET w == TagOf(t, el) IN
       IF w = <<>> THEN MFail(m)
       ELSE LET j == VariantOf(t, w[1], FALSE) IN
            MPush(m, IF j = 0 THEN f ELSE [f EXCEPT !.v = << <<t.vs[j].id>> >>, !.stop = TRUE])
    [] OTHER -> MPush(m, f)

\* the element el selects variant j of the enumeration on top (or says nothing: j = 0)
MVariant(m, E, el, j) ==
  LET top == Len(m.fs) IN
  IF j = 0 THEN MPush(m, MFrame("skip", "", el, 0))
  ELSE IF E.vs[j].card = "unit" THEN
    MPush([m EXCEPT !.fs[top].v = << <<E.vs[j].id>> >>, !.fs[top].stop = TRUE], MFrame("skip", "", el, 0))
  ELSE IF E.vs[j].simple THEN MPush(m, MFrame("payload", E.vs[j].base, el, j))
  ELSE MEnter(m, E.vs[j].base, el, j)

MRoot(m, el) ==
  LET t == T[m.tn] IN
  IF t.k \in {"struct", "enum"} /\ ~RootOk(t, el) THEN MFail(m)
  ELSE IF t.flat THEN
    IF t.k = "struct" THEN
      IF Wrapped(t, el) THEN MEnter(m, m.tn, el, 0)
      ELSE LET a0 == AttrFold(t, el.a, [j \in 1..Len(t.fields) |-> <<>>]) IN
           IF a0.err THEN MFail(m) ELSE MPush(m, [MFrame("forest", m.tn, el, 0) EXCEPT !.acc = a0.acc])
    ELSE MPush(m, MFrame("roots", m.tn, el, 0))
  ELSE IF t.k = "enum" /\ t.tag = "" /\ el.n # t.root /\ VariantOf(t, el.n, FALSE) # 0
  THEN MPush(m, MFrame("variant", m.tn, el, 0))
  ELSE MEnter(m, m.tn, el, 0)

MOnStart(m, el) ==
  LET f == MTop(m) IN
  CASE f.k \in {"struct", "forest"} ->
       LET S == T[f.tn] i == FieldOf(S, el) IN
       IF i = 0 THEN MPush(m, MFrame("skip", "", el, 0))
       ELSE IF S.fields[i].simple THEN MPush(m, MFrame("scalar", S.fields[i].base, el, i))
       ELSE MEnter(m, S.fields[i].base, el, i)
    [] f.k \in {"enum", "variant"} ->
       LET E == T[f.tn] IN
       IF f.stop THEN MPush(m, MFrame("skip", "", el, 0))
       ELSE IF E.tag # "" /\ TagOf(E, el) = <<>> THEN MFail(m)
       ELSE MVariant(m, E, el, VariantOf(E, IF E.tag # "" THEN TagOf(E, el)[1] ELSE el.n, FALSE))
    [] f.k = "roots" ->
       LET E == T[f.tn] j == VariantOf(E, el.n, FALSE) IN
       IF j # 0 THEN MVariant(m, E, el, j)
       ELSE \* entered: its content is looked at as if it stood here
            MPush(m, [MFrame("enum", f.tn, el, -1) EXCEPT !.v = f.v])
    [] OTHER -> MPush(m, MFrame("skip", "", el, 0))

MOnText(m, ev) ==
  LET top == Len(m.fs) f == MTop(m) x == [k |-> "t", t |-> ev.t] IN
  CASE f.k \in {"struct", "forest"} ->
       [m EXCEPT !.fs[top].acc = [i \in DOMAIN f.acc |-> IF T[f.tn].fields[i].text THEN <<ev.t>> ELSE f.acc[i]],
                 !.fs[top].c = Append(@, x)]
    [] f.k = "enum" ->
       LET i == VariantOf(T[f.tn], ev.t, TRUE) IN
       IF f.stop \/ i = 0 THEN m ELSE [m EXCEPT !.fs[top].v = << <<T[f.tn].vs[i].id>> >>, !.fs[top].stop = TRUE]
    [] OTHER -> [m EXCEPT !.fs[top].c = Append(@, x)]

(* ------------------------------------------------------------------- leaving *)
RECURSIVE MStep(_, _), MResult(_, _), MEvents(_)
MEvents(nodes) ==
  Cat([i \in 1..Len(nodes) |->
     IF nodes[i].k = "t" THEN <<[k |-> "t", t |-> nodes[i].t]>>
     ELSE <<[k |-> "s", n |-> nodes[i].n, ns |-> nodes[i].ns, a |-> nodes[i].a]>> \o MEvents(nodes[i].c)
          \o <<[k |-> "e", n |-> nodes[i].n, ns |-> nodes[i].ns]>>])

\* what the flattened parts make of what was not claimed: they read it as a document of their own
MFlats(S, doc, acc) ==
  FoldLeft(LAMBDA st, i :
    LET f == S.fields[i] IN
    IF ~f.flat \/ st.err THEN st
    ELSE LET r == MResult(f.base, doc) IN
      IF r.ok THEN [st EXCEPT !.acc = [@ EXCEPT ![i] = <<r.v>>]]
      ELSE IF f.card = "opt" THEN st ELSE [st EXCEPT !.err = TRUE],
    [acc |-> acc, err |-> FALSE], [i \in 1..Len(S.fields) |-> i])
MStruct(f) ==
  LET S == T[f.tn]
      doc == IF f.k = "forest" THEN f.c ELSE <<[MNode(f) EXCEPT !.c = Merge(f.c)]>>
      st == IF S.flats THEN MFlats(S, doc, f.acc) ELSE [acc |-> f.acc, err |-> FALSE]
  IN IF st.err THEN Bad ELSE Assemble(S, st.acc)
MEnum(f) == IF f.v = <<>> THEN Ok(T[f.tn].def) ELSE Ok(f.v[1])

\* variant j of the enumeration frame f has read the payload x: <<>> if that cannot be
MSettle(f, j, x) ==
  LET v == T[f.tn].vs[j] IN
  IF v.card = "one" THEN << <<v.id, x>> >>
  ELSE IF v.card = "opt" \/ f.v = <<>> THEN << <<v.id, <<x>> >> >>
  ELSE IF f.v[1][1] # v.id THEN <<>>
  ELSE << <<v.id, Append(f.v[1][2], x)>> >>

\* the value r of the element just left goes to the frame below
MDeliver(m, i, r) ==
  IF ~r.ok THEN MFail(m)
  ELSE IF m.fs = <<>> THEN MDone(m, r)
  ELSE LET top == Len(m.fs) g == MTop(m) IN
    CASE g.k \in {"struct", "forest"} -> [m EXCEPT !.fs[top].acc = Put(@, i, T[g.tn].fields[i], r.v)]
      [] g.k = "variant" -> MFail(m)
      [] OTHER -> LET w == MSettle(g, i, r.v) IN IF w = <<>> THEN MFail(m) ELSE [m EXCEPT !.fs[top].v = w]

MOnEnd(m0) ==
  LET f == MTop(m0) m == MPop(m0) top == Len(m.fs) IN
  CASE f.k = "skip" ->
       IF MTop(m).k = "variant" THEN MDone(m, Ok(MTop(m).v[1]))
       ELSE IF MTop(m).k = "roots" /\ MTop(m).stop THEN MDone(m, Ok(MTop(m).v[1]))
       ELSE [m EXCEPT !.fs[top].c = Append(@, MNode(f))]
    [] f.k = "scalar" ->
       LET r == ScalarField(f.tn, f.c) g == MTop(m) IN
       IF r.ok THEN [m EXCEPT !.fs[top].acc = Put(@, f.i, T[g.tn].fields[f.i], r.v)] ELSE m
    [] f.k = "payload" -> MDeliver(m, f.i, ScalarVariant(f.tn, f.c))
    [] f.k = "new" -> MDeliver(m, f.i, ParseNew(T[f.tn].how, T[f.tn].base, IF First(f.c) = "t" THEN f.c[1].t ELSE ""))
    [] f.k = "custom" -> MDeliver(m, f.i, Custom(T[f.tn].how, MNode(f)))
    [] f.k = "struct" -> MDeliver(m, f.i, MStruct(f))
    [] f.k = "enum" ->
       IF f.i # -1 THEN MDeliver(m, f.i, MEnum(f))
       ELSE IF f.stop \/ f.el.n = MTop(m).el.n THEN MDone(m, MEnum(f))
       ELSE [m EXCEPT !.fs[top].v = f.v]

MOnEof(m) ==
  IF Len(m.fs) # 1 THEN MFail(m)
  ELSE CASE MTop(m).k = "forest" -> MDone(m, MStruct(MTop(m)))
         [] MTop(m).k = "roots"  -> MDone(m, MEnum(MTop(m)))
         [] OTHER -> MFail(m)

MStep(m, ev) ==
  IF m.res # <<>> THEN m
  ELSE CASE ev.k = "x" -> MFail(m)
         [] ev.k = "d" -> MOnEof(m)
         [] m.fs = <<>> -> (LET r == MRoot(m, ev) IN
              IF r.res = <<>> /\ MTop(r).k \in {"variant", "forest", "roots"} THEN MOnStart(r, ev) ELSE r)
         [] ev.k = "s" -> MOnStart(m, ev)
         [] ev.k = "t" -> MOnText(m, ev)
         [] ev.k = "e" -> MOnEnd(m)

MResult(tn, nodes) ==
  LET evs == MEvents(Elems(nodes))
      m == FoldLeft(MStep, MStart(tn), evs \o <<[k |-> IF evs = <<>> THEN "x" ELSE "d"]>>)
  IN m.res[1]
=============================================================================
