-------------------------------- MODULE Xml --------------------------------
(* From the tokens of a document to its information content.

   A token is one of
     [k |-> "s", p, n, d, a]   start tag: prefix, local name, namespace declarations <<prefix, uri>>,
                               attributes <<prefix, local, value>>
     [k |-> "e"]               end tag of the innermost open element
     [k |-> "t", t]            character data (after references are resolved), in whatever spelling
     [k |-> "c"]               comment: leaves no trace, the text around it is one run
     [k |-> "p"]               processing instruction: leaves no trace but ends a run of text
     [k |-> "x"]               something no well-formed document contains
     [k |-> "u"]               a token cut short by the end of the input
   Read(toks) gives the root elements, whether each was completed, and whether the input was well formed. *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

LOCAL Env0 == << <<"xml", "http://www.w3.org/XML/1998/namespace">> >>
\* innermost declaration wins; the empty prefix is unbound by default
RECURSIVE Lookup(_, _)
Lookup(env, p) == IF Len(env) = 0 THEN (IF p = "" THEN [ok |-> TRUE, u |-> ""] ELSE [ok |-> FALSE, u |-> ""])
                  ELSE IF env[Len(env)][1] = p THEN [ok |-> TRUE, u |-> env[Len(env)][2]]
                  ELSE Lookup(SubSeq(env, 1, Len(env) - 1), p)

\* a frame: the element being read, its declarations in scope, and whether the last text run is still open
Frame(ns, n, a, env) == [el |-> [k |-> "e", ns |-> ns, n |-> n, a |-> a, c |-> <<>>], env |-> env, run |-> FALSE]
AddNode(fr, x) == [fr EXCEPT !.el.c = Append(@, x), !.run = FALSE]
AddText(fr, s) ==
  IF fr.run THEN [fr EXCEPT !.el.c[Len(fr.el.c)].t = @ \o s]
  ELSE [fr EXCEPT !.el.c = Append(@, [k |-> "t", t |-> s]), !.run = TRUE]

ReadStep(st, tok) ==
  IF ~st.ok THEN st
  ELSE LET top == Len(st.stack) IN
  CASE tok.k = "s" ->
       LET env == (IF top = 0 THEN Env0 ELSE st.stack[top].env) \o tok.d
           el  == Lookup(env, tok.p)
           as  == [i \in 1..Len(tok.a) |-> IF tok.a[i][1] = "" THEN [ok |-> TRUE, u |-> ""] ELSE Lookup(env, tok.a[i][1])]
           at  == [i \in 1..Len(tok.a) |-> <<as[i].u, tok.a[i][2], tok.a[i][3]>>]
           dup == \E i, j \in 1..Len(at) : i < j /\ at[i][1] = at[j][1] /\ at[i][2] = at[j][2]
       IN IF ~el.ok \/ dup \/ \E i \in 1..Len(as) : ~as[i].ok THEN [st EXCEPT !.ok = FALSE]
          ELSE [st EXCEPT !.stack = Append(@, Frame(el.u, tok.n, at, env))]
    [] tok.k = "e" ->
       IF top = 0 THEN [st EXCEPT !.ok = FALSE]
       ELSE LET x == st.stack[top].el IN
         IF top = 1 THEN [st EXCEPT !.stack = <<>>, !.roots = Append(@, x)]
         ELSE [st EXCEPT !.stack = Append(SubSeq(st.stack, 1, top - 2), AddNode(st.stack[top - 1], x))]
    [] tok.k = "t" -> IF top = 0 THEN st ELSE [st EXCEPT !.stack[top] = AddText(@, tok.t)]
    [] tok.k = "p" -> IF top = 0 THEN st ELSE [st EXCEPT !.stack[top].run = FALSE]
    [] tok.k = "c" -> st
    [] OTHER -> [st EXCEPT !.ok = FALSE]

\* roots: completed root elements up to the first error or the end; ok: no error; open: elements still open
Read(toks) == FoldLeft(ReadStep, [ok |-> TRUE, stack |-> <<>>, roots |-> <<>>], toks)
=============================================================================
