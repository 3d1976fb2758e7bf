------------------------------- MODULE Events -------------------------------
(* The events a reader of a document sees, one after another: what the parser under the
   deserializer delivers.  The last event repeats for ever: "d" (end of document) or "x" (error). *)
EXTENDS Xml, Lex

LOCAL EvStart(el) == [k |-> "s", n |-> el.n, ns |-> el.ns, a |-> el.a]
LOCAL EvEnd(el)   == [k |-> "e", n |-> el.n, ns |-> el.ns]

\* st: [ok, evs, buf (text not yet delivered), open (elements open, with the declarations in scope), roots,
\*      raw (a parser left as it is: text is not trimmed, and text of blanks alone is an event of its own, "w")]
LOCAL Flush(st) ==
  LET s == Trim(st.buf) IN
  IF s = "" /\ (~st.raw \/ st.buf = "" \/ Len(st.open) = 0) THEN [st EXCEPT !.buf = ""]
  ELSE IF Len(st.open) = 0 THEN [st EXCEPT !.ok = FALSE]
  ELSE [st EXCEPT !.buf = "", !.evs = Append(@, [k |-> IF s = "" THEN "w" ELSE "t", t |-> IF st.raw THEN st.buf ELSE s])]

EvStep(st0, tok) ==
  IF ~st0.ok THEN st0
  ELSE IF tok.k = "t" THEN [st0 EXCEPT !.buf = @ \o tok.t]
  ELSE IF tok.k = "c" THEN st0
  ELSE LET st == Flush(st0) top == Len(st.open) IN
  IF ~st.ok THEN st
  ELSE CASE tok.k = "s" ->
       \* the reading of one start tag is that of Xml
       LET r == ReadStep([ok |-> TRUE, roots |-> <<>>, stack |-> IF top = 0 THEN <<>> ELSE <<st.open[top]>>], tok) IN
       IF ~r.ok THEN [st EXCEPT !.ok = FALSE]
       ELSE LET fr == r.stack[Len(r.stack)] IN [st EXCEPT !.open = Append(@, fr), !.evs = Append(@, EvStart(fr.el))]
    [] tok.k = "e" ->
       IF top = 0 THEN [st EXCEPT !.ok = FALSE]
       ELSE [st EXCEPT !.open = SubSeq(@, 1, top - 1), !.evs = Append(@, EvEnd(st.open[top].el)), !.roots = @ + (IF top = 1 THEN 1 ELSE 0)]
    [] tok.k = "p" -> st
    [] OTHER -> [st EXCEPT !.ok = FALSE]

\* one token after the other: EvInit, EvStep for each token, EvLast for what follows the last one
EvInit == [ok |-> TRUE, evs |-> <<>>, buf |-> "", open |-> <<>>, roots |-> 0, raw |-> FALSE]
EvLast(st) ==
  LET s2 == IF st.ok THEN Flush(st) ELSE st
  IN [s2 EXCEPT !.evs = Append(@, IF s2.ok /\ Len(s2.open) = 0 /\ s2.roots > 0 THEN [k |-> "d"] ELSE [k |-> "x"])]
EventsOf(toks) == EvLast(FoldLeft(EvStep, EvInit, toks)).evs
RawEventsOf(toks) == EvLast(FoldLeft(EvStep, [EvInit EXCEPT !.raw = TRUE], toks)).evs
=============================================================================
