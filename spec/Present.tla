------------------------------- MODULE Present -------------------------------
(* How the same document is presented by the serialization entry points and settings. *)
EXTENDS Encode

Decl == "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"
DeclLower == "<?xml version=\"1.0\" encoding=\"utf-8\"?>"
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasDecl(s) == Starts(s, Decl) \/ Starts(s, DeclLower)
Undeclared(s) == IF HasDecl(s) THEN SubSeq(s, Len(Decl) + 1, Len(s)) ELSE s

NoBreak(s) == IF Starts(s, "\n") THEN SubSeq(s, 2, Len(s)) ELSE s

\* the end of the start tag that begins at i: the first ">" outside quotes
RECURSIVE TagEnd(_, _, _), LastLt(_, _)
TagEnd(s, i, q) ==
  IF i > Len(s) THEN 0
  ELSE LET c == At(s, i) IN
    IF q # "" THEN TagEnd(s, i + 1, IF c = q THEN "" ELSE q)
    ELSE IF c = ">" THEN i
    ELSE TagEnd(s, i + 1, IF c \in {"\"", "'"} THEN c ELSE "")
LastLt(s, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = "<" THEN i ELSE LastLt(s, i - 1)
\* what stands between the tags of the root
Inside(s) ==
  LET e == TagEnd(s, 1, "") IN
  IF At(s, e - 1) = "/" THEN "" ELSE SubSeq(s, e + 1, LastLt(s, Len(s)) - 1)

(* ------------------------------------------------------------------ indentation *)
Blank(x) == x.k = "t" /\ Trim(x.t) = ""
HasText(c) == \E i \in 1..Len(c) : c[i].k # "e" /\ ~(Blank(c[i]))
Indent(istr, d) == "\n" \o Rep(istr, d)
IsLayout(x, istr, d) == x.k = "t" /\ x.t = Indent(istr, d)

\* c: content as read from the indented document, one level below d - 1.
\* exact: elements and line breaks alternate; otherwise (content with text) any white space between elements
RECURSIVE LaidOut(_, _, _, _)
LaidOut(c, istr, d, exact) ==
  LET es == SelectSeq(c, LAMBDA x : x.k = "e") IN
  /\ \A i \in 1..Len(es) : LaidOut(es[i].c, istr, d + 1, exact)
  /\ IF es = <<>> \/ HasText(c) THEN TRUE
     ELSE IF ~exact THEN \A i \in 1..Len(c) : c[i].k = "t" => \E k \in {d - 1, d} : IsLayout(c[i], istr, k)
     ELSE /\ Len(c) = 2 * Len(es) + 1
          /\ \A i \in 1..Len(c) : IF i % 2 = 0 THEN c[i].k = "e" ELSE IsLayout(c[i], istr, IF i = Len(c) THEN d - 1 ELSE d)

\* the document: no layout around the root, its content is at level 1
DocLaidOut(doc, istr, exact) ==
  \A k \in 1..Len(doc) : doc[k].k = "e" => LaidOut(doc[k].c, istr, 1, exact)

\* taking the layout away: white space next to an element goes, text that is an element's only content stays
RECURSIVE Bare(_)
Bare(c) ==
  LET some == \E i \in 1..Len(c) : c[i].k = "e" IN
  Cat([i \in 1..Len(c) |->
     IF c[i].k = "e" THEN <<[c[i] EXCEPT !.c = Bare(@)]>>
     ELSE IF some /\ Blank(c[i]) THEN <<>> ELSE <<c[i]>>])

RECURSIVE TrimAll(_)
\* in mixed content line breaks may have joined the text
TrimAll(c) ==
  LET some == \E i \in 1..Len(c) : c[i].k = "e" IN
  Cat([i \in 1..Len(c) |->
     IF c[i].k = "e" THEN <<[c[i] EXCEPT !.c = TrimAll(@)]>>
     ELSE IF some THEN (LET s == Trim(c[i].t) IN IF s = "" THEN <<>> ELSE <<[c[i] EXCEPT !.t = s]>>)
     ELSE <<c[i]>>])
=============================================================================
