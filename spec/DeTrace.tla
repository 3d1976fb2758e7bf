------------------------------- MODULE DeTrace -------------------------------
(* Conformance of recorded deserializations: every line of the trace holds a type, a document as tokens
   and the outcome the implementation reported; the specification must give the same outcome.
   A state is a position in the trace; the trace is cut into parts TLC walks in parallel. *)
EXTENDS Outcome

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 64

VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

Verdict(l) ==
  LET e == Outcome(l.T, l.x) IN
  IF l.ok = e.ok /\ (e.ok => (l.cmp = "ok" \/ Agrees(l.T, e.v, l.v))) THEN TRUE
  ELSE PrintT(<<"MISMATCH", l.id, ToJson(e)>>)
Conforms == Verdict(Trace[i])
=============================================================================
