------------------------------- MODULE SerTrace -------------------------------
(* Conformance of recorded serializations: a line holds a type, a value and the document an independent
   XML parser read from what was written; the specification must describe the same document. *)
EXTENDS Encode

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 64
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

\* kind "doc": the whole document; "body": what stands between the tags of the root
Expected(l) == IF l.kind = "body" THEN Body(l.T, l.v) ELSE EncodeDoc(l.T, l.v)
Verdict(l) == LET e == Expected(l) IN
  IF SameNodes(e, l.x) THEN TRUE ELSE PrintT(<<"MISMATCH", l.id, ToJson(e)>>)
Conforms == Verdict(Trace[i])
=============================================================================
