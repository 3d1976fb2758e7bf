---------------------------- MODULE CursorTrace ----------------------------
(* Conformance of recorded sequences of cursor calls: a line holds the tokens of the document, whether the parser
   was left as it is (raw), the calls and what the implementation reported for each. *)
EXTENDS Cursor, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
Part  == 64
VARIABLE i
N == Len(Trace)
Init == i \in {x \in 1..N : x % Part = 1}
Next == i < N /\ (i + 1) % Part # 1 /\ i' = i + 1

Cur(l) == Fresh(IF l.raw THEN RawEventsOf(l.x) ELSE EventsOf(l.x))
Verdict(l) ==
  LET c == Cur(l) IN
  IF ~Defined(c, l.ops) THEN PrintT(<<"MISMATCH", l.id, ToJson("undefined")>>)
  ELSE LET e == Run(c, l.ops, <<>>).log IN
       IF e = l.log THEN TRUE ELSE PrintT(<<"MISMATCH", l.id, ToJson(e)>>)
Conforms == Verdict(Trace[i])
\* the sequences of calls the specification says something about
TellDefined == Defined(Cur(Trace[i]), Trace[i].ops) => PrintT(<<"DEFINED", Trace[i].id>>)
=============================================================================
