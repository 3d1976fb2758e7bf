------------------------------ MODULE RoundTrace ------------------------------
(* Values written and read back.  A line: type, value, what an independent parser reads from the document
   (l.x), and what came back.  The specification must itself be able to read the document
   back to the value: Decode(Encode(v)) = v. *)
EXTENDS Present, Outcome

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 64
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

Gives(tn, r, v) == r.ok /\ Agrees(tn, r.v, v)
Checks(l) == [
  written  |-> SameNodes(TrimAll(EncodeDoc(l.T, l.v)), TrimAll(Bare(l.x))),
  back     |-> l.ok /\ l.v2 = l.v /\ l.eq,
  theorem  |-> Gives(l.T, DecodeDoc(l.T, Plainly(EncodeDoc(l.T, l.v))), l.v),
  readable |-> Gives(l.T, DecodeDoc(l.T, Plainly(l.x)), l.v) ]
Failed(l) == LET c == Checks(l) IN {k \in DOMAIN c : ~c[k]}
Verdict(l) == LET f == Failed(l) IN IF f = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l.id, ToJson(f)>>)
Conforms == Verdict(Trace[i])
=============================================================================
