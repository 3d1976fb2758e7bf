------------------------------- MODULE Encode -------------------------------
(* What serialization must write for a value: the information content of the document.
   Nodes are those of Denote, with [k |-> "c", t |-> text] for character data that has to be
   written as CDATA.  Attributes are <<uri, local, value>>. *)
EXTENDS Denote

(* ------------------------------------------------------------------ omission *)
\* element and attribute fields; text and flattened fields have no default on output
Omit(f, v) == f.skip \/ (f.hasskip /\ v = f.skipv) \/ (f.hasdef /\ v = f.def)
OmitText(f, v) == f.skip \/ (f.hasskip /\ v = f.skipv)

Txt(s) == IF s = "" THEN <<>> ELSE <<[k |-> "t", t |-> s]>>
Elem(ns, n, a, c) == [k |-> "e", ns |-> ns, n |-> n, a |-> a, c |-> c]
\* the items of a single, optional or list value
Items(card, v) == CASE card = "one" -> <<v>>
                    [] card = "vopt" -> Cat(v)                              \* Vec<Option<_>>
                    [] card = "optv" -> IF v = <<>> THEN <<>> ELSE v[1]     \* Option<Vec<_>>
                    [] OTHER -> v
JoinWords(ws) == FoldLeft(LAMBDA a, w : IF a.first THEN [first |-> FALSE, s |-> w] ELSE [a EXCEPT !.s = @ \o " " \o w],
                          [first |-> TRUE, s |-> ""], ws).s

RECURSIVE Body(_, _), Attrs(_, _), Plain(_, _)

\* the text a value has as an attribute
Plain(base, v) == IF base \in Scalars THEN v
                  ELSE LET b == Body(base, v) IN IF b = <<>> THEN "" ELSE b[1].t

FieldAttr(f, v) ==
  IF Omit(f, v) THEN <<>>
  ELSE CASE f.card = "one" -> << <<f.ns, f.n, Plain(f.base, v)>> >>
         [] f.card = "opt" -> IF v = <<>> THEN <<>> ELSE << <<f.ns, f.n, Plain(f.base, v[1])>> >>
         [] f.card = "vec" -> IF v = <<>> THEN <<>>
                              ELSE << <<f.ns, f.n, JoinWords([i \in 1..Len(v) |-> Plain(f.base, v[i])])>> >>

FlatAttrs(f, v) ==
  IF OmitText(f, v) THEN <<>>
  ELSE IF f.card = "opt" THEN (IF v = <<>> THEN <<>> ELSE Attrs(f.base, v[1]))
  ELSE IF f.card = "vec" THEN <<>>    \* items have no attributes of their own on their parent
  ELSE Attrs(f.base, v)

VariantIx(E, v) == CHOOSE i \in 1..Len(E.vs) : E.vs[i].id = v[1]

\* the attributes of the element a value is in: its own, then those of its flattened parts
Attrs(tn, v) ==
  LET t == T[tn] IN
  CASE t.k = "struct" ->
       Cat([i \in 1..Len(t.fields) |-> IF t.fields[i].attr THEN FieldAttr(t.fields[i], v[i]) ELSE <<>>])
       \o Cat([i \in 1..Len(t.fields) |-> IF t.fields[i].flat THEN FlatAttrs(t.fields[i], v[i]) ELSE <<>>])
    [] t.k = "enum" -> IF t.tag = "" THEN <<>> ELSE << <<"", t.tag, t.vs[VariantIx(t, v)].n>> >>
    [] OTHER -> <<>>

Payload(base, simple, ns, n, x) ==
  IF simple THEN Elem(ns, n, <<>>, Txt(x)) ELSE Elem(ns, n, Attrs(base, x), Body(base, x))

FieldBody(f, v) ==
  CASE f.attr -> <<>>
    [] f.text -> IF OmitText(f, v) THEN <<>>
                 ELSE IF f.card = "opt" THEN (IF v = <<>> THEN <<>> ELSE Txt(v[1])) ELSE Txt(v)
    [] OTHER ->
       IF Omit(f, v) THEN <<>>
       ELSE IF f.flat THEN Cat([i \in 1..Len(Items(f.card, v)) |-> Body(f.base, Items(f.card, v)[i])])
       ELSE IF f.cdata THEN <<Elem(f.ns, f.n, <<>>, <<[k |-> "c", t |-> v]>>)>>
       ELSE LET xs == Items(f.card, v) IN [i \in 1..Len(xs) |-> Payload(f.base, f.simple, f.ns, f.n, xs[i])]

\* what is written between the tags of the element a value is in
Body(tn, v) ==
  LET t == T[tn] IN
  CASE t.k = "new" -> Txt(v)
    [] t.k = "struct" -> Cat([i \in 1..Len(t.fields) |-> FieldBody(t.fields[i], v[i])])
    [] t.k = "enum" ->
       LET x == t.vs[VariantIx(t, v)]
           ns == IF x.pfx = "" THEN "" ELSE x.ns
       IN IF x.card = "unit" THEN (IF t.tag = "" THEN Txt(x.n) ELSE <<>>)
          ELSE IF x.card = "named" THEN Body(x.base, v[2])
          ELSE IF x.flat THEN <<Elem(T[x.base].ns, T[x.base].root, Attrs(x.base, v[2]), Body(x.base, v[2]))>>
          ELSE LET xs == Items(x.card, v[2]) IN [i \in 1..Len(xs) |-> Payload(x.base, x.simple, ns, x.n, xs[i])]

\* the whole document: a sequence of root elements
EncodeDoc(tn, v) ==
  LET t == T[tn] IN
  IF t.flat THEN Body(tn, v) ELSE <<Elem(t.ns, t.root, Attrs(tn, v), Body(tn, v))>>

(* ---------------------------------------------------------- agreement with a document *)
\* attributes have no order; neighbouring text is one text
SameAttrs(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
RECURSIVE SameNodes(_, _), Glue(_)
Glue(c) == FoldLeft(LAMBDA a, x :
              IF x.k = "t" /\ Len(a) > 0 /\ a[Len(a)].k = "t" THEN [a EXCEPT ![Len(a)].t = @ \o x.t] ELSE Append(a, x), <<>>, c)
SameNode(x, y) ==
  /\ x.k = y.k
  /\ IF x.k = "e" THEN x.ns = y.ns /\ x.n = y.n /\ SameAttrs(x.a, y.a) /\ SameNodes(x.c, y.c) ELSE x.t = y.t
SameNodes(a, b) == LET p == Glue(a) q == Glue(b) IN Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameNode(p[i], q[i])

RECURSIVE Plainly(_)
\* character data is character data, however it is written
Plainly(c) == Merge([k \in 1..Len(c) |-> IF c[k].k = "e" THEN [c[k] EXCEPT !.c = Plainly(@)] ELSE [k |-> "t", t |-> c[k].t]])
=============================================================================
