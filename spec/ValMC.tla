-------------------------------- MODULE ValMC --------------------------------
(* Values of a type, all of them up to a budget, written by the machine of SerMachine while the machine of
   DeMachine reads.  Every value is printed with the document for replay against the implementation.

   A scenario (a line of a file): T; pool: the literals of each scalar by where it stands; budget; rt: whether
   the type is one whose values come back. *)
EXTENDS SerMachine, Outcome

Scenarios == ndJsonDeserialize(IOEnv.VP_SCENARIOS)
NS == Len(Scenarios)

(* --------------------------------------------------------------------- values *)
\* sets of <<value, cost>>: 0 for the plainest value, 1 for each departure from it
Within(S, b) == {x \in S : x[2] <= b}
Pool(s, base, ctx) == IF base = "String" THEN s.pool[ctx] ELSE s.pool[base]

RECURSIVE Of(_, _, _, _), Carded(_, _, _, _, _, _)
Many(s, base, b, ctx, n) ==
  FoldLeft(LAMBDA S, k : UNION {{<<Append(x[1], y[1]), x[2] + y[2]>> : y \in Of(s, base, b - x[2], ctx)} : x \in S}, {<< <<>>, n >>}, [k \in 1..n |-> k])
\* full: never empty
Carded(s, card, base, b, ctx, full) ==
  CASE card \in {"one", "named"} -> Of(s, base, b, ctx)
    [] card = "opt" -> Within((IF full THEN {} ELSE {<< <<>>, 0 >>}) \cup {<< <<x[1]>>, x[2] + (IF full THEN 0 ELSE 1)>> : x \in Of(s, base, b, ctx)}, b)
    [] card = "vopt" -> {<< <<>>, 0 >>} \cup Within({<< <<y[1]>>, y[2] + 1>> : y \in Carded(s, "opt", base, b, ctx, FALSE)}, b)
                        \cup Within({<< <<y[1], <<>>, y[1]>>, y[2] + 2>> : y \in Carded(s, "opt", base, b, ctx, FALSE)}, b)
    [] card = "optv" -> {<< <<>>, 0 >>} \cup Within({<< <<y[1]>>, y[2] + 1>> : y \in Carded(s, "vec", base, b, ctx, FALSE)}, b)
    [] card = "vec" -> Within((IF full THEN {} ELSE {<< <<>>, 0 >>}) \cup UNION {Many(s, base, b, ctx, n) : n \in {k \in 1..3 : k <= b}}, b)
FieldCtx(f) == IF f.attr THEN (IF f.card = "vec" THEN "word" ELSE IF f.base \in Scalars THEN "attr" ELSE "safe") ELSE IF f.text THEN (IF f.card = "opt" THEN "otext" ELSE "text") ELSE IF f.cdata THEN "cdata" ELSE "elem"
Cheapest(t) ==
  LET U == {i \in 1..Len(t.vs) : t.vs[i].card = "unit"} P == {i \in 1..Len(t.vs) : t.vs[i].card # "unit" /\ t.vs[i].simple} IN
  IF U # {} THEN CHOOSE i \in U : \A j \in U : i <= j ELSE IF P # {} THEN CHOOSE i \in P : \A j \in P : i <= j ELSE 1
Of(s, base, b, ctx) ==
  IF b < 0 THEN {}
  ELSE IF base \in Scalars THEN
    LET p == Pool(s, base, ctx) IN {<<p[i], IF i = 1 THEN 0 ELSE 1>> : i \in {k \in 1..Len(p) : k = 1 \/ b > 0}}
  ELSE LET t == T[base] IN
    CASE t.k = "new" -> LET p == IF t.how = "prim" THEN Pool(s, t.base, ctx) ELSE s.pool[base] IN
                        {<<p[i], IF i = 1 THEN 0 ELSE 1>> : i \in {k \in 1..Len(p) : k = 1 \/ b > 0}}
      [] t.k = "enum" ->
           UNION {LET x == t.vs[i] c == IF i = Cheapest(t) THEN 0 ELSE 1 IN
                  IF x.card = "unit" THEN {<< <<x.id>>, c >>}
                  ELSE IF ctx \in {"attr", "word", "safe"} THEN {}
                  ELSE {<< <<x.id, y[1]>>, y[2] + c >> : y \in Carded(s, x.card, x.base, b - c, "elem", s.full)}
                  : i \in {k \in 1..Len(t.vs) : k = Cheapest(t) \/ b > 0}}
      [] t.k = "struct" ->
           FoldLeft(LAMBDA S, i :
             LET f == t.fields[i] IN
             UNION {{<<Append(x[1], y[1]), x[2] + y[2]>> :
                       y \in Within(Carded(s, f.card, f.base, b - x[2], IF f.text /\ ctx \in {"word", "safe"} THEN ctx ELSE FieldCtx(f), f.text /\ s.full)
                                    \cup (IF f.text /\ s.full /\ f.card = "opt" THEN {<< <<>>, 0 >>} ELSE {})
                                    \cup (IF f.hasdef THEN {<<f.def, 1>>} ELSE {}) \cup (IF f.hasskip THEN {<<f.skipv, 1>>} ELSE {}), b - x[2])} : x \in S},
             {<< <<>>, 0 >>}, [i \in 1..Len(t.fields) |-> i])

(* ------------------------------------------------------------------ transitions *)
VARIABLES sc, v, w, rd
vars == <<sc, v, w, rd>>
S == Scenarios[sc]

Init == sc \in 1..NS /\ v \in {x[1] : x \in Of(Scenarios[sc], Scenarios[sc].T, Scenarios[sc].budget, "elem")}
        /\ w = WStart(Scenarios[sc].T, v) /\ rd = Rd0(Scenarios[sc].T)
Next == /\ ~WDone(w)
        /\ w' = WStep(w)
        /\ rd' = IF Len(w'.out) > Len(w.out) /\ ~(w.open = <<>> /\ w'.open = <<>>) THEN RdStep(rd, w'.out[Len(w'.out)]) ELSE rd
        /\ UNCHANGED <<sc, v>>

(* -------------------------------------------------------------------- invariants *)
Opened(evs) == Len(SelectSeq(evs, LAMBDA e : e.k = "s")) - Len(SelectSeq(evs, LAMBDA e : e.k = "e"))
\* every prefix of what is written is a prefix of a document: nothing is closed that is not open
Nested == Opened(w.out) = Len(w.open) /\ (WDone(w) => w.open = <<>>)
\* one root unless the type has none of its own
OneRoot == ~T[S.T].flat => (w.open = <<>> /\ w.out # <<>> => WDone(w))
NoTwice == \A i \in 1..Len(w.out) : w.out[i].k = "s" => LET a == w.out[i].a IN \A j, k \in 1..Len(a) : j # k => <<a[j][1], a[j][2]>> # <<a[k][1], a[k][2]>>
\* done: the document of Encode
Same == WDone(w) => SameNodes(WTree(w.out), EncodeDoc(S.T, v))
\* while it is being written a reader is not satisfied, and not put off (values that come back)
Waiting == S.rt /\ ~WDone(w) => rd.m.res = <<>>
\* written, it is read as the value it was written for
Back == S.rt /\ WDone(w) => LET r == RdStep(rd, [k |-> "d"]).m.res[1] IN r.ok /\ Agrees(S.T, r.v, v)
\* and what the reader's own machine makes of it is what Denote makes of the tree
IsDoc(p) == p # <<>> /\ \A i \in 1..Len(p) : p[i].k = "e"
ReadSame ==
  WDone(w) => LET p == Plainly(EncodeDoc(S.T, v)) IN
    IsDoc(p) => LET r == RdStep(rd, [k |-> "d"]).m.res[1] d == DecodeDoc(S.T, p) IN r.ok = d.ok /\ (r.ok => r.v = d.v)

Expected == WDone(w) => PrintT(<<"VAL", sc, ToJson(v), ToJson(EncodeDoc(S.T, v))>>)
=============================================================================
