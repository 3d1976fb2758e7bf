------------------------------ MODULE SinkTrace ------------------------------
(* Conformance of writing: a line is one document with what happened under every fault tried. *)
EXTENDS Sink, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 16
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

Bad(l) == {k \in 1..Len(l.r) : ~(IF l.how = "limit" THEN Limited(l.doc, l.r[k].limit, l.r[k].acc, l.r[k].st)
                                 ELSE Reported(l.doc, l.r[k].calls, l.r[k].st))}
Verdict(l) == LET b == Bad(l) IN IF b = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l.id, ToJson(b)>>)
Conforms == Verdict(Trace[i])
=============================================================================
