-------------------------------- MODULE Sink --------------------------------
(* A serialization writing to a writer that may take only part of what it is offered, ask for a retry,
   or fail.  doc is what a healthy writer receives.
   A call: [off: what is offered, r: "all" | "some" | "intr" | "zero" | "err", n: how much of it was taken]. *)
EXTENDS Naturals, Sequences

IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Take(off, n) == SubSeq(off, 1, n)

Fresh == [acc |-> "", lost |-> FALSE, wrong |-> FALSE]

\* s.acc: what the writer has; s.lost: it failed; s.wrong: something else than the next part of doc was offered
Offer(doc, s, c) ==
  IF s.lost THEN s
  ELSE LET rest == SubSeq(doc, Len(s.acc) + 1, Len(doc)) IN
    IF ~IsPrefix2(c.off, rest) THEN [s EXCEPT !.wrong = TRUE]
    ELSE IF c.r \in {"err", "zero"} THEN [s EXCEPT !.lost = TRUE]
    ELSE IF c.r = "intr" THEN s
    ELSE [s EXCEPT !.acc = s.acc \o Take(c.off, c.n)]

RECURSIVE After(_, _, _)
After(doc, s, cs) == IF cs = <<>> THEN s ELSE After(doc, Offer(doc, s, Head(cs)), Tail(cs))

\* a failure is reported, and without one everything was written
Reported(doc, cs, st) ==
  LET s == After(doc, Fresh, cs) IN
  /\ ~s.wrong
  /\ IsPrefix2(s.acc, doc)
  /\ IF s.lost THEN st = "err" ELSE st = "ok" /\ s.acc = doc

\* the writer takes `limit` bytes and then fails for good
Limited(doc, limit, acc, st) ==
  /\ acc = IF limit < Len(doc) THEN SubSeq(doc, 1, limit) ELSE doc
  /\ st = IF limit < Len(doc) THEN "err" ELSE "ok"
=============================================================================
