------------------------------ MODULE SerMachine ------------------------------
(* Serialization as a machine: a list of what is still to be written, of which each step writes one event.
   Encode says what the whole document is; this says what has been written at any moment, so that what
   stands in the sink when it fails, and what a reader makes of it while it is being written, can be stated.
   ValMC checks that the two agree and lets the machine of DeMachine read what this one writes.

   The machine: [todo: tasks, open: <<ns, name>> of the elements open, out: events written] *)
EXTENDS Encode, DeMachine

WElem(base, simple, ns, n, v) == [do |-> "elem", base |-> base, simple |-> simple, ns |-> ns, n |-> n, v |-> v]
WBody(tn, v) == [do |-> "body", tn |-> tn, v |-> v]
WText(s) == [do |-> "text", s |-> s]
WClose == [do |-> "close"]

WStart(tn, v) ==
  LET t == T[tn] IN
  [todo |-> IF t.flat THEN <<WBody(tn, v)>> ELSE <<WElem(tn, FALSE, t.ns, t.root, v)>>, open |-> <<>>, out |-> <<>>]
WDone(w) == w.todo = <<>>

\* what field f with value v leaves to be written between the tags
WField(f, v) ==
  CASE f.attr -> <<>>
    [] f.text -> IF OmitText(f, v) THEN <<>>
                 ELSE IF f.card = "opt" THEN (IF v = <<>> THEN <<>> ELSE <<WText(v[1])>>) ELSE <<WText(v)>>
    [] Omit(f, v) -> <<>>
    [] f.flat -> LET xs == Items(f.card, v) IN [i \in 1..Len(xs) |-> WBody(f.base, xs[i])]
    [] f.cdata -> <<[do |-> "cdata", ns |-> f.ns, n |-> f.n, v |-> v]>>
    [] OTHER -> LET xs == Items(f.card, v) IN [i \in 1..Len(xs) |-> WElem(f.base, f.simple, f.ns, f.n, xs[i])]

WVariant(t, v) ==
  LET x == t.vs[VariantIx(t, v)] IN
  CASE x.card = "unit" -> IF t.tag = "" THEN <<WText(x.n)>> ELSE <<>>
    [] x.card = "named" -> <<WBody(x.base, v[2])>>
    [] x.flat -> <<WElem(x.base, FALSE, T[x.base].ns, T[x.base].root, v[2])>>
    [] OTHER -> LET xs == Items(x.card, v[2]) IN [i \in 1..Len(xs) |-> WElem(x.base, x.simple, IF x.pfx = "" THEN "" ELSE x.ns, x.n, xs[i])]

WParts(tn, v) ==
  LET t == T[tn] IN
  CASE t.k = "new" -> <<WText(v)>>
    [] t.k = "struct" -> Cat([i \in 1..Len(t.fields) |-> WField(t.fields[i], v[i])])
    [] t.k = "enum" -> WVariant(t, v)

RECURSIVE WStep(_)
\* writes the next event, if there is one
WStep(w) ==
  IF WDone(w) THEN w
  ELSE LET x == Head(w.todo) r == Tail(w.todo) IN
    CASE x.do = "body" -> WStep([w EXCEPT !.todo = WParts(x.tn, x.v) \o r])
      [] x.do = "text" -> IF x.s = "" THEN WStep([w EXCEPT !.todo = r])
                          ELSE [w EXCEPT !.todo = r, !.out = Append(@, [k |-> "t", t |-> x.s])]
      [] x.do = "chars" -> [w EXCEPT !.todo = r, !.out = Append(@, [k |-> "c", t |-> x.s])]
      [] x.do = "cdata" -> [w EXCEPT !.todo = <<[do |-> "chars", s |-> x.v], WClose>> \o r, !.open = Append(@, <<x.ns, x.n>>),
                                     !.out = Append(@, [k |-> "s", ns |-> x.ns, n |-> x.n, a |-> <<>>])]
      [] x.do = "close" -> LET o == w.open[Len(w.open)] IN
                           [w EXCEPT !.todo = r, !.open = SubSeq(@, 1, Len(@) - 1), !.out = Append(@, [k |-> "e", ns |-> o[1], n |-> o[2]])]
      [] x.do = "elem" ->
           [w EXCEPT !.todo = <<IF x.simple THEN WText(x.v) ELSE WBody(x.base, x.v), WClose>> \o r, !.open = Append(@, <<x.ns, x.n>>),
                     !.out = Append(@, [k |-> "s", ns |-> x.ns, n |-> x.n, a |-> IF x.simple THEN <<>> ELSE Attrs(x.base, x.v)])]

\* the tree a sequence of events describes
WTree(evs) ==
  LET r == FoldLeft(LAMBDA st, e :
        LET n == Len(st) IN
        CASE e.k = "s" -> Append(st, Elem(e.ns, e.n, e.a, <<>>))
          [] e.k = "e" -> [SubSeq(st, 1, n - 1) EXCEPT ![n - 1].c = Append(@, st[n])]
          [] OTHER -> [st EXCEPT ![n].c = Append(@, e)], <<Elem("", "", <<>>, <<>>)>>, evs)
  IN r[1].c

(* ------------------------------------------- the reader at the other end *)
\* [m: the machine, buf: text it has not been given yet]
Rd0(tn) == [m |-> MStart(tn), buf |-> ""]
RdFlush(r) == LET s == Trim(r.buf) IN IF s = "" THEN [r EXCEPT !.buf = ""] ELSE [m |-> MStep(r.m, [k |-> "t", t |-> s]), buf |-> ""]
RdStep(r, e) == IF e.k \in {"t", "c"} THEN [r EXCEPT !.buf = @ \o e.t]
                ELSE LET f == RdFlush(r) IN [f EXCEPT !.m = MStep(@, e)]
=============================================================================
