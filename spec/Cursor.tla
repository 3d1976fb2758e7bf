------------------------------- MODULE Cursor -------------------------------
(* The deserializer's cursor: looking ahead, reading, skipping, expecting an end tag and reading an
   inner value, and deserializing a type in the middle of it all.  Step(c, op) gives the cursor after
   a call and what the caller is told.

   c: [evs  the events of the document, the last one repeating,
       pos  how many the parser has handed out,
       pk   0, or the number of the event looked at but not read,
       d    the number of elements open at the cursor,
       dead the sequence is over, because of
       why  a panic, or a type that refused what it was given (how far it read is nobody's business)] *)
EXTENDS Events, Denote

X == [k |-> "x"]
Fresh(evs) == [evs |-> evs, pos |-> 0, pk |-> 0, d |-> 0, dead |-> FALSE, why |-> ""]

\* what the parser gives next: the number of the event; the final event is given for ever
RawIx(c)  == IF c.pos < Len(c.evs) THEN c.pos + 1 ELSE Len(c.evs)
Raw(c)    == [c EXCEPT !.pos = RawIx(c)]

Res(c, r) == [c |-> c, r |-> r]
DoPeek(c) ==
  IF c.pk # 0 THEN Res(c, c.evs[c.pk])
  ELSE LET i == RawIx(c) IN
       IF c.evs[i].k = "x" THEN Res(Raw(c), X) ELSE Res([Raw(c) EXCEPT !.pk = i], c.evs[i])
DoInner(c) == LET i == RawIx(c) IN Res(Raw(c), c.evs[i])
DoNext(c) ==
  LET i  == IF c.pk # 0 THEN c.pk ELSE RawIx(c)
      c1 == IF c.pk # 0 THEN [c EXCEPT !.pk = 0] ELSE Raw(c)
      e  == c.evs[i]
  IN CASE e.k = "s" -> Res([c1 EXCEPT !.d = @ + 1], e)
       [] e.k = "e" -> IF c.d = 0 THEN Res([c1 EXCEPT !.dead = TRUE, !.why = "panic"], [k |-> "panic"]) ELSE Res([c1 EXCEPT !.d = @ - 1], e)
       [] OTHER     -> Res(c1, e)

\* skipping ends with the end tag of the element open at the call; the end of the document is an error (no element is open)
RECURSIVE SkipTo(_, _, _)
SkipTo(c, d, seen) ==
  IF c.d < d THEN [c |-> c, r |-> [k |-> "ok"], seen |-> seen]
  ELSE LET n == DoNext(c) IN
       IF n.r.k \in {"x", "d"} THEN [c |-> n.c, r |-> X, seen |-> seen] ELSE SkipTo(n.c, d, Append(seen, n.r))
DoSkip(c) == SkipTo(c, c.d, <<>>)

DoExpect(c, n, ns) ==
  LET x == DoNext(c) IN
  IF x.r.k = "panic" THEN x
  ELSE Res(x.c, IF x.r.k = "e" /\ x.r.n = n /\ x.r.ns = ns THEN [k |-> "ok"] ELSE X)

(* Deserializing a type from the element that starts next: it gets what Denote says the element means, and
   once its caller has read on to the end of the element (a type may stop earlier), the cursor is after it. *)
RECURSIVE Kids(_, _, _)
Kids(evs, i, acc) ==  \* the content that starts with event i, and the number of the end tag after it (0: there is none)
  LET e == evs[i] IN
  CASE e.k = "e" -> [c |-> acc, at |-> i]
    [] e.k = "t" -> Kids(evs, i + 1, Append(acc, e))
    [] e.k = "s" -> (LET k == Kids(evs, i + 1, <<>>) IN
                     IF k.at = 0 THEN k ELSE Kids(evs, k.at + 1, Append(acc, [k |-> "e", ns |-> e.ns, n |-> e.n, a |-> e.a, c |-> k.c])))
    [] OTHER     -> [c |-> acc, at |-> 0]
Coming(c) == IF c.pk # 0 THEN c.pk ELSE RawIx(c)
ComingEnd(c) == Kids(c.evs, Coming(c) + 1, <<>>).at
DoDe(c, tn) ==
  LET s == c.evs[Coming(c)]
      k == Kids(c.evs, Coming(c) + 1, <<>>)
      r == DecodeEl(tn, [k |-> "e", ns |-> s.ns, n |-> s.n, a |-> s.a, c |-> k.c], c.d = 0)
  IN IF r.ok THEN Res([c EXCEPT !.pos = k.at, !.pk = 0], [k |-> "v", v |-> r.v])
     ELSE Res([c EXCEPT !.dead = TRUE, !.why = "no"], [k |-> "no"])

(* Step(c, op) = [c, log]: log is the entry for the call, as the driver of the implementation records it *)
RECURSIVE Step(_, _), Run(_, _, _)
Run(c, ops, log) ==
  IF Len(ops) = 0 \/ c.dead THEN [c |-> c, log |-> log, failed |-> FALSE]
  ELSE LET s == Step(c, Head(ops)) IN
       IF Head(ops).must /\ s.log.r.k = "x" THEN [c |-> s.c, log |-> Append(log, s.log), failed |-> TRUE]
       ELSE Run(s.c, Tail(ops), Append(log, s.log))

Step(c, op) ==
  CASE op.c = "peek"  -> (LET s == DoPeek(c)  IN [c |-> s.c, log |-> [c |-> "peek",  r |-> s.r, d |-> s.c.d]])
    [] op.c = "inner" -> (LET s == DoInner(c) IN [c |-> s.c, log |-> [c |-> "inner", r |-> s.r, d |-> s.c.d]])
    [] op.c = "next"  -> (LET s == DoNext(c)  IN [c |-> s.c, log |-> IF s.c.dead THEN [c |-> "next", r |-> s.r] ELSE [c |-> "next", r |-> s.r, d |-> s.c.d]])
    [] op.c = "skip"  -> (LET s == DoSkip(c)  IN [c |-> s.c, log |-> [c |-> "skip", r |-> s.r, seen |-> s.seen, d |-> s.c.d]])
    [] op.c = "expect" -> (LET s == DoExpect(c, op.n, op.ns) IN
                           [c |-> s.c, log |-> IF s.c.dead THEN [c |-> "expect", r |-> s.r] ELSE [c |-> "expect", r |-> s.r, n |-> op.n, ns |-> op.ns, d |-> s.c.d]])
    [] op.c = "de" -> (LET s == DoDe(c, op.T) IN
                       [c |-> s.c, log |-> IF s.c.dead THEN [c |-> "de", r |-> s.r] ELSE [c |-> "de", r |-> s.r, d |-> s.c.d]])
    [] op.c = "read" ->
       LET n == DoNext(c)
           b == Run(n.c, op.b, <<>>)
           fail == b.failed \/ op.ret = "err"
           e == DoExpect(b.c, n.r.n, n.r.ns)
           entry(cc, r, called, bd, body) == [c |-> "read", r |-> r, called |-> called, bd |-> bd, b |-> body, ret |-> op.ret, d |-> cc.d]
           dead(cc) == [c |-> cc, log |-> [c |-> "read", r |-> [k |-> cc.why]]]
       IN IF n.c.dead THEN dead(n.c)
          ELSE IF n.r.k # "s" THEN [c |-> n.c, log |-> entry(n.c, X, FALSE, 0, <<>>)]
          ELSE IF b.c.dead THEN dead(b.c)
          ELSE IF fail THEN [c |-> b.c, log |-> entry(b.c, X, TRUE, n.c.d, b.log)]
          ELSE IF e.c.dead THEN dead(e.c)
          ELSE [c |-> e.c, log |-> entry(e.c, e.r, TRUE, n.c.d, b.log)]

\* once the parser has been read past the cursor, only the calls that move over it are specified
RECURSIVE Defined(_, _)
Defined(c, ops) ==
  IF Len(ops) = 0 THEN TRUE
  ELSE LET op == Head(ops) IN
       IF op.c = "de" /\ (c.evs[Coming(c)].k # "s" \/ ComingEnd(c) = 0 \/ (c.d = 0 /\ T[op.T].k # "struct")) THEN FALSE
       ELSE IF op.c = "inner" THEN \A i \in 1..Len(ops) : ops[i].c \in {"inner", "peek", "next"}
       ELSE IF op.c = "read" /\ (LET n == DoNext(c) IN n.r.k = "s" /\ ~Defined(n.c, op.b)) THEN FALSE
       ELSE LET s == Step(c, op) IN s.c.dead \/ Defined(s.c, Tail(ops))
=============================================================================
