------------------------------- MODULE EmitMC -------------------------------
(* All short sequences of serializer calls; each complete one is printed for replay. *)
EXTENDS Emit

Bound == atoi(IOEnv.VP_DEPTH)
Vals == ndJsonDeserialize(IOEnv.VP_VALS)     \* [T, v]

VARIABLES s, ops, log
vars == <<s, ops, log>>

Call(op) == /\ Specified(s, op)
            /\ LET r == Do(s, op) IN s' = r.s /\ ops' = Append(ops, op) /\ log' = Append(log, Entry(r))

Init == s = NewSer /\ ops = <<>> /\ log = <<>>
Next == /\ Len(ops) < Bound
        /\ \/ \E b \in BOOLEAN : Call([c |-> "skip", v |-> b])
           \/ \E n \in {<<>>, <<"nm">>} : Call([c |-> "name", v |-> n])
           \/ Call([c |-> "start", n |-> "el", a |-> << <<"k", "v">> >>, d |-> <<>>])
           \/ Call([c |-> "chars", v |-> "t<"])
           \/ Call([c |-> "end"])
           \/ \E k \in 1..Len(Vals) : Call([c |-> "val", T |-> Vals[k].T, v |-> Vals[k].v])

Count(p(_)) == Cardinality({k \in 1..Len(ops) : p(k)})
IsStart(k) == ops[k].c = "start"
IsEnd(k)   == ops[k].c = "end" /\ log[k].ok
\* every start that was written is open until an end is written
Balanced == Len(s.stack) = 1 + Count(IsStart) - Count(IsEnd)
\* name and flag are exactly what the last call setting them said, whatever was written in between, unless a
\* derived value came after it
LastSet(c) == LET hits == {k \in 1..Len(ops) : ops[k].c = c} IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A j \in hits : j <= k
Kept == /\ s.surename => s.name = (IF LastSet("name") = 0 THEN <<>> ELSE ops[LastSet("name")].v)
        /\ s.sureskip => s.skip = (IF LastSet("skip") = 0 THEN FALSE ELSE ops[LastSet("skip")].v)
\* what has been written is never taken back
Grows == [][\A k \in 1..Len(s.stack) : k <= Len(s'.stack) => IsPrefix(s.stack[k].c, s'.stack[k].c)]_vars
Emitted == (Len(ops) = Bound) => PrintT(<<"BEH", ToJson([ops |-> ops, log |-> log, closed |-> Closed(s), x |-> Written(s)])>>)
=============================================================================
