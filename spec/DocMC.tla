-------------------------------- MODULE DocMC --------------------------------
(* Every document, and every truncation of one, built from a few tokens per type.  In each state: the machine
   of DeMachine has settled on what Outcome says the tokens so far mean; once settled nothing changes it; a
   truncated element has no value; comments say nothing; ...  Every state is printed for replay against the implementation.

   A scenario (one line of a file): T, the tokens it may begin with, the tokens, the bound on their number. *)
EXTENDS DeMachine, Outcome

Scenarios == ndJsonDeserialize(IOEnv.VP_SCENARIOS)
Emit == IOEnv.VP_EMIT = "1"
NS == Len(Scenarios)

VARIABLES sc, toks, ev, m
vars == <<sc, toks, ev, m>>
S == Scenarios[sc]
Token(k) == S.tokens[k]
Toks == [i \in 1..Len(toks) |-> Token(toks[i])]
Open == Len(ev.open)

\* the events of the tokens so far go to the machine as they come
Feed(ma, e0, e1) == FoldLeft(MStep, ma, SubSeq(e1.evs, Len(e0.evs) + 1, Len(e1.evs)))

Fits(k) ==
  LET t == Token(k) n == Len(toks) last == IF n = 0 THEN "none" ELSE Token(toks[n]).k IN
  /\ n < S.bound
  /\ IF n = 0 THEN k \in ToSet(S.first) ELSE k \notin ToSet(S.only)
  /\ t.k = "e" => Open > 0
  /\ t.k = "t" => last # "t"
  /\ t.k = "s" => Open < S.depth
  \* nothing after the root unless the type has no element of its own
  /\ Open = 0 => (n = 0 \/ (S.more /\ t.k = "s"))
  \* an element that is opened is also closed within the bound (prefixes are states as well)
  /\ t.k = "s" => n + Open + 1 < S.bound
  /\ t.k \in {"t", "c", "p"} => n + Open < S.bound

Init == sc \in 1..NS /\ toks = <<>> /\ ev = EvInit /\ m = MStart(Scenarios[sc].T)
Next == /\ ev.ok
        /\ \E k \in 1..Len(S.tokens) : Fits(k) /\
             LET e1 == EvStep(ev, Token(k)) IN
             toks' = Append(toks, k) /\ ev' = e1 /\ m' = Feed(m, ev, e1)
        /\ UNCHANGED sc

\* what the machine says if the input ends here
AtEnd == LET e1 == EvLast(ev) IN Feed(m, ev, e1).res[1]
Here == Outcome(S.T, Toks)

TypeOk == Len(m.fs) <= Open + 1 /\ Len(m.res) <= 1
Agreement == toks # <<>> => (AtEnd.ok = Here.ok /\ (Here.ok => AtEnd.v = Here.v))
\* an open element has no value yet
Incomplete == Open > 0 /\ ~T[S.T].flat => (m.res = <<>> \/ ~m.res[1].ok) /\ ~Here.ok
\* a result is never taken back, and is that of every continuation
Settled == [][m.res # <<>> => m'.res = m.res]_vars
SettledMeansSo == m.res # <<>> => Here = m.res[1]
\* neither comments nor the way an unknown element is filled make a difference
Silent == toks # <<>> /\ Open = 0 => Outcome(S.T, SelectSeq(Toks, LAMBDA t : t.k # "c")) = Here

Expected == IF toks = <<>> THEN TRUE ELSE
  (Emit => PrintT(<<"DOC", sc, ToJson(toks), ToJson(AtEnd)>>))
=============================================================================
