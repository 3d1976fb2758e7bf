-------------------------------- MODULE Emit --------------------------------
(* The serializer as an object: a pending start name, a flag that suppresses the own tags of the next
   value, and the document written so far.

   s: [name  <<>> or <<pending name>>,       sure (name and flag are as the calls left them),
       skip  whether values leave out their own tags,
       stack the elements open, innermost last, as [n, a, c, d (prefixes declared)]; the first frame is the document] *)
EXTENDS Encode

NewSer == [name |-> <<>>, skip |-> FALSE, surename |-> TRUE, sureskip |-> TRUE, stack |-> << [n |-> "", a |-> <<>>, c |-> <<>>, d |-> <<>>] >>]

Put1(s, nodes) == [s EXCEPT !.stack[Len(s.stack)].c = @ \o nodes]

\* names may have a prefix, bound by an element still open
ColonAt(q) == LET is == {i \in 1..Len(q) : At(q, i) = ":"} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
LocalOf(q) == IF ColonAt(q) = 0 THEN q ELSE SubSeq(q, ColonAt(q) + 1, Len(q))
NsOf(s, q) ==
  IF ColonAt(q) = 0 THEN ""
  ELSE LET p == SubSeq(q, 1, ColonAt(q) - 1)
           all == Cat([i \in 1..Len(s.stack) |-> s.stack[i].d])
           at == {i \in 1..Len(all) : all[i][1] = p}
       IN IF at = {} THEN "unbound" ELSE all[CHOOSE i \in at : \A j \in at : j <= i][2]

\* the element a value of type tn gets when it has to have one
Own(s, tn) == IF s.name = <<>> THEN T[tn].root ELSE LocalOf(s.name[1])
\* a newtype writes its tags or leaves them out; a scalar has none; other values may have tags and attributes
ValueNodes(s, tn, v) ==
  IF tn \in Scalars THEN Txt(v)
  ELSE IF T[tn].flat THEN Body(tn, v)
  ELSE IF s.skip THEN Body(tn, v)
  ELSE <<Elem(IF s.name = <<>> THEN T[tn].ns ELSE NsOf(s, s.name[1]), Own(s, tn), Attrs(tn, v), Body(tn, v))>>

\* whether a call has a specified effect: a derived value leaves name and flag as its last field set them
Specified(s, op) ==
  CASE op.c = "val" -> IF op.T \in Scalars THEN TRUE ELSE IF T[op.T].flat THEN TRUE ELSE s.surename /\ s.sureskip
    [] OTHER -> TRUE

Do(s, op) ==
  CASE op.c = "skip"  -> [s |-> [s EXCEPT !.skip = op.v, !.sureskip = TRUE], ok |-> TRUE]
    [] op.c = "name"  -> [s |-> [s EXCEPT !.name = op.v, !.surename = TRUE], ok |-> TRUE]
    [] op.c = "start" -> [s |-> [s EXCEPT !.stack = Append(@, [n |-> op.n, a |-> [i \in 1..Len(op.a) |-> <<NsOf([s EXCEPT !.stack = Append(@, [d |-> op.d])], op.a[i][1]), LocalOf(op.a[i][1]), op.a[i][2]>>], c |-> <<>>, d |-> op.d])], ok |-> TRUE]
    [] op.c = "chars" -> [s |-> Put1(s, Txt(op.v)), ok |-> TRUE]
    [] op.c = "cdata" -> [s |-> Put1(s, <<[k |-> "c", t |-> op.v]>>), ok |-> TRUE]
    [] op.c = "end"   -> IF Len(s.stack) = 1 THEN [s |-> s, ok |-> FALSE]
                         ELSE LET f == s.stack[Len(s.stack)]
                                  t == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
                              IN [s |-> Put1(t, <<Elem(NsOf(s, f.n), LocalOf(f.n), f.a, f.c)>>), ok |-> TRUE]
    [] op.c = "val"   ->
       LET t == Put1(s, ValueNodes(s, op.T, op.v))
           keeps == op.T \in Scalars \/ T[op.T].k = "new"
       IN [s |-> IF keeps THEN t ELSE [t EXCEPT !.surename = FALSE, !.sureskip = FALSE], ok |-> TRUE]

\* what the driver of the implementation records for a call; unspecified parts are left open
Entry(r) == [ok |-> r.ok, skip |-> r.s.skip, name |-> r.s.name, surename |-> r.s.surename, sureskip |-> r.s.sureskip]
RECURSIVE RunOps(_, _, _)
RunOps(s, ops, log) ==
  IF Len(ops) = 0 THEN [s |-> s, log |-> log, specified |-> TRUE]
  ELSE IF ~Specified(s, Head(ops)) THEN [s |-> s, log |-> log, specified |-> FALSE]
  ELSE LET r == Do(s, Head(ops)) IN RunOps(r.s, Tail(ops), Append(log, Entry(r)))
\* only a document whose elements are all closed is compared
Closed(s) == Len(s.stack) = 1
Written(s) == s.stack[1].c
=============================================================================
