------------------------------- MODULE SinkMC -------------------------------
(* A caller that writes a document piece by piece, offering the rest of a piece until it is taken, over every
   writer: it reports success exactly when the document arrived, and what arrived is a prefix of it.
   The fault patterns met on the way are printed and replayed into the code. *)
EXTENDS Sink, TLC, Json, FiniteSets

Pieces == <<"<a", ">", "xyz", "</a>">>
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN "" ELSE Head(ps) \o Join(Tail(ps))
Doc == Join(Pieces)
Answers == {"all", "one", "half", "intr", "zero", "err"}
Depth == 4

VARIABLES i, rest, s, st, pat, calls
vars == <<i, rest, s, st, pat, calls>>
Init == i = 1 /\ rest = Pieces[1] /\ s = Fresh /\ st = "run" /\ pat = <<>> /\ calls = <<>>

Call(a) == [off |-> rest, r |-> IF a \in {"one", "half"} THEN "some" ELSE a,
            n |-> CASE a = "all" -> Len(rest) [] a = "one" -> IF Len(rest) < 1 THEN Len(rest) ELSE 1 [] a = "half" -> (Len(rest) + 1) \div 2 [] OTHER -> 0]
Step(a) ==
  LET c == Call(a)
      left == SubSeq(rest, c.n + 1, Len(rest)) IN
  /\ calls' = Append(calls, c)
  /\ s' = Offer(Doc, s, c)
  /\ pat' = IF Len(pat) < Depth THEN Append(pat, a) ELSE pat
  /\ IF a \in {"zero", "err"} THEN st' = "err" /\ i' = i /\ rest' = rest
     ELSE IF left # "" THEN st' = st /\ i' = i /\ rest' = left
     ELSE IF i = Len(Pieces) THEN st' = "ok" /\ i' = i /\ rest' = ""
     ELSE st' = st /\ i' = i + 1 /\ rest' = Pieces[i + 1]
Next == st = "run" /\ (IF Len(pat) < Depth THEN \E a \in Answers : Step(a) ELSE Step("all"))

Safe == ~s.wrong /\ IsPrefix2(s.acc, Doc)
Honest == st # "run" => Reported(Doc, calls, st)
Emits == st = "run" \/ PrintT(<<"PAT", ToJson(pat)>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(st # "run")
=============================================================================
