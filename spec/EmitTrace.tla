----------------------------- MODULE EmitTrace -----------------------------
(* Conformance of recorded serializer calls: a line holds the calls, what each reported and the document
   an independent parser read from what was written. *)
EXTENDS Emit

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 64
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

SameEntry(e, l) == e.ok = l.ok /\ (e.sureskip => e.skip = l.skip) /\ (e.surename => e.name = l.name)
SameLog(e, l) == Len(e) = Len(l) /\ \A k \in 1..Len(e) : SameEntry(e[k], l[k])
Verdict(l) ==
  LET r == RunOps(NewSer, l.ops, <<>>) IN
  IF ~r.specified THEN TRUE
  ELSE IF SameLog(r.log, l.log) /\ (Closed(r.s) => SameNodes(Written(r.s), l.x)) THEN TRUE
  ELSE PrintT(<<"MISMATCH", l.id, ToJson([log |-> r.log, x |-> Written(r.s)])>>)
Conforms == Verdict(Trace[i])
=============================================================================
