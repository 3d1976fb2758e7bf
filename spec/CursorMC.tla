------------------------------ MODULE CursorMC ------------------------------
(* All short sequences of cursor calls over small documents: the guarantees of the cursor are checked
   in every state, and every complete sequence is printed for replay into the implementation.
   The documents come from a file (token sequences), so that check and replay use the same ones. *)
EXTENDS Cursor, Json, IOUtils

Docs == ndJsonDeserialize(IOEnv.VP_DOCS)
Bound  == atoi(IOEnv.VP_DEPTH)
Emit == IOEnv.VP_EMIT = "1"

VARIABLES doc, cur, ops, log, given
vars == <<doc, cur, ops, log, given>>

P(c) == [c |-> c, must |-> FALSE]
Names(evs) == {<<evs[k].n, evs[k].ns>> : k \in {j \in 1..Len(evs) : evs[j].k = "e"}}
Bodies == { <<>>, <<P("next")>>, <<P("peek")>>, <<[c |-> "next", must |-> TRUE], P("skip")>>, <<P("skip")>>, <<P("next"), P("next")>> }
Calls(c) ==
  {P("peek"), P("next"), P("skip")}
  \cup {[c |-> "expect", must |-> FALSE, n |-> m[1], ns |-> m[2]] : m \in Names(c.evs)}
  \cup {[c |-> "read", must |-> FALSE, b |-> b, ret |-> r] : b \in Bodies, r \in {"ok", "err"}}

Init == /\ doc \in 1..Len(Docs)
        /\ cur = Fresh(EventsOf(Docs[doc].x))
        /\ ops = <<>> /\ log = <<>> /\ given = 0
Next == /\ Len(ops) < Bound /\ ~cur.dead
        /\ \E op \in Calls(cur) :
             /\ Defined(cur, <<op>>)
             /\ LET s == Step(cur, op) IN
                /\ cur' = s.c /\ ops' = Append(ops, op) /\ log' = Append(log, s.log)
                /\ given' = s.c.pos
        /\ UNCHANGED doc

\* the cursor is after `read` events: those delivered, not the one looked at
Done(c) == IF c.pk = 0 THEN c.pos ELSE c.pk - 1
Opens(c, n)  == Cardinality({k \in 1..n : c.evs[k].k = "s"})
Closes(c, n) == Cardinality({k \in 1..n : c.evs[k].k = "e"})
\* the reported depth is the number of elements open at the cursor
DepthOk == cur.dead \/ cur.d = Opens(cur, Done(cur)) - Closes(cur, Done(cur))
\* looking ahead is bounded by one event, and never loses one
AheadOk == cur.pk = 0 \/ cur.pk = cur.pos
\* a well-formed document is never left behind: no call panics on it
NoPanic == ~cur.dead
\* the parser only ever moves forward
Forward == [][cur'.pos >= cur.pos]_vars
\* after looking ahead, reading gives the event looked at
PeekNext == LET p == DoPeek(cur) IN DoNext(p.c).r = DoNext(cur).r /\ p.c.d = cur.d /\ DoPeek(p.c) = p
\* reading an inner value consumes exactly one element, or reports an error (the body must come back to
\* the depth it started at: the end tag expected afterwards is only compared by name)
OneElement ==
  \A op \in {o \in Calls(cur) : o.c = "read" /\ Defined(cur, <<o>>)} :
    LET s == Step(cur, op)
        n == DoNext(cur)
        b == Run(n.c, op.b, <<>>)
    IN s.log.r.k = "ok" /\ b.c.d = n.c.d => s.c.d = cur.d /\ Done(s.c) >= Done(cur) + 2
\* skipping consumes exactly the rest of the element: one level up, the last event its end tag
SkipExact == LET s == DoSkip(cur) IN
               IF s.r.k = "ok" THEN cur.d > 0 /\ s.c.d = cur.d - 1 /\ Len(s.seen) = Done(s.c) - Done(cur) /\ s.seen[Len(s.seen)].k = "e"
               ELSE cur.d = 0 \/ cur.evs[Len(cur.evs)].k = "x"
Emitted == (Emit /\ Len(ops) = Bound) => PrintT(<<"BEH", ToJson([doc |-> doc, ops |-> ops, log |-> log])>>)
=============================================================================
