------------------------------- MODULE Denote -------------------------------
(* What a document means for a type: the value (or refusal) deserialization must
   produce.  Declarative; DeMachine gives the event-by-event machine and TLC
   checks that the two agree.

   A document is a sequence of nodes (its root elements; more than one only for
   types that have no element of their own).  A node is
     [k |-> "t", t |-> text]                                    character data
     [k |-> "e", ns |-> uri, n |-> local, a |-> attrs, c |-> nodes]
   with attrs a sequence of <<uri, local, value>>.
   T is the catalogue of types. *)
EXTENDS Lex, Catalogue

Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
\* the content as it is seen: character data trimmed, blank runs absent
Norm(c) == Cat([i \in 1..Len(c) |->
             IF c[i].k = "t" THEN (LET s == Trim(c[i].t) IN IF s = "" THEN <<>> ELSE <<[c[i] EXCEPT !.t = s]>>)
             ELSE <<c[i]>>])
\* neighbouring runs of text are one run (once what stood between them has been taken away)
Merge(c) == FoldLeft(LAMBDA a, x :
              IF x.k = "t" /\ Len(a) > 0 /\ a[Len(a)].k = "t" THEN [a EXCEPT ![Len(a)].t = @ \o x.t] ELSE Append(a, x), <<>>, c)
Elems(c) == SelectSeq(c, LAMBDA x : x.k = "e")
First(c) == IF Len(c) = 0 THEN "none" ELSE c[1].k

(* ------------------------------------------------------------------- scalars *)
\* content of an element that holds a scalar: exactly one run of text, or nothing for a string
ScalarField(base, c) ==
  LET m == Norm(c) IN
  IF Len(m) = 0 THEN (IF base = "String" THEN Ok("") ELSE Bad)
  ELSE IF Len(m) = 1 /\ m[1].k = "t" THEN Parse(base, m[1].t, TRUE) ELSE Bad
ScalarVariant(base, c) ==
  LET m == Norm(c) IN
  IF Len(m) = 0 THEN Parse(base, "", FALSE)
  ELSE IF Len(m) = 1 /\ m[1].k = "t" THEN Parse(base, m[1].t, FALSE) ELSE Bad

(* ------------------------------------------------------- fields of a structure *)
IsChild(f) == ~f.attr /\ ~f.flat /\ ~f.text
Matches(f, x) == IsChild(f) /\ f.ns = x.ns /\ f.n = x.n
FieldOf(S, x) == LET hits == {i \in 1..Len(S.fields) : Matches(S.fields[i], x)} IN
                 IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

\* a: a sequence of values seen so far, per field
Put(a, i, f, v) == [a EXCEPT ![i] = IF f.card = "vec" THEN Append(@, v) ELSE <<v>>]

RootOk(t, x) == x.ns = "" \/ (t.ns # "" /\ x.ns = t.ns)

RECURSIVE DecodeEl(_, _, _), DecodeDoc(_, _), AttrVal(_, _), StructFrom(_, _, _, _), EnumOver(_, _, _)

(* the text of an attribute, for a field of type base *)
AttrVal(base, s) ==
  IF base \in Scalars THEN Parse(base, s, TRUE)
  ELSE DecodeDoc(base, << [k |-> "e", ns |-> "", n |-> T[base].name, a |-> <<>>, c |-> <<[k |-> "t", t |-> s]>>] >>)

\* an attribute is known by its local name, and by its namespace where several fields have that name
OfField(S, f, at) ==
  /\ at[2] = f.n
  /\ at[1] = f.ns \/ \A i \in 1..Len(S.fields) : LET g == S.fields[i] IN ~(g.attr /\ g.n = f.n /\ g.ns = at[1])

AttrFold(S, attrs, acc0) ==
  FoldLeft(LAMBDA st, fi :
    LET f == S.fields[fi] IN
    IF ~f.attr THEN st ELSE
    FoldLeft(LAMBDA s2, at :
      IF s2.err \/ ~OfField(S, f, at) THEN s2
      ELSE FoldLeft(LAMBDA s3, w :
             IF s3.err THEN s3
             ELSE LET r == AttrVal(f.base, w) IN
                  IF r.ok THEN [s3 EXCEPT !.acc = Put(@, fi, f, r.v)] ELSE [s3 EXCEPT !.err = TRUE],
             s2, IF f.card = "vec" THEN Words(at[3]) ELSE <<at[3]>>),
      st, attrs),
    [acc |-> acc0, err |-> FALSE], [i \in 1..Len(S.fields) |-> i])

\* one node of the content: st = [acc, err, rest (content no field claimed)]
NodeFold(S, nodes, st0) ==
  FoldLeft(LAMBDA st, x :
    IF st.err THEN st
    ELSE IF x.k = "t" THEN
      [st EXCEPT !.acc = [i \in DOMAIN st.acc |-> IF S.fields[i].text THEN <<x.t>> ELSE st.acc[i]],
                 !.rest = Append(@, x)]
    ELSE LET i == FieldOf(S, x) IN
      IF i = 0 THEN [st EXCEPT !.rest = Append(@, x)]
      ELSE LET f == S.fields[i] IN
        IF f.simple THEN (LET r == ScalarField(f.base, x.c) IN
                          IF r.ok THEN [st EXCEPT !.acc = Put(@, i, f, r.v)] ELSE st)
        ELSE (LET r == DecodeEl(f.base, x, FALSE) IN
              IF r.ok THEN [st EXCEPT !.acc = Put(@, i, f, r.v)] ELSE [st EXCEPT !.err = TRUE]),
    st0, nodes)

\* flattened fields read `doc`, the own tags around what was not claimed
FlatFold(S, doc, st0) ==
  FoldLeft(LAMBDA st, i :
    LET f == S.fields[i] IN
    IF ~f.flat \/ st.err THEN st
    ELSE LET r == DecodeDoc(f.base, doc) IN
      IF r.ok THEN [st EXCEPT !.acc = [@ EXCEPT ![i] = <<r.v>>]]
      ELSE IF f.card = "opt" THEN st ELSE [st EXCEPT !.err = TRUE],
    st0, [i \in 1..Len(S.fields) |-> i])

Assemble(S, acc) ==
  LET missing(i) == LET f == S.fields[i] IN
        f.card = "one" /\ acc[i] = <<>> /\ ~f.hasdef /\ ~(f.text /\ f.base = "String")
      val(i) == LET f == S.fields[i] IN
        IF f.card # "one" THEN (IF f.text /\ acc[i] = <<"">> THEN <<>> ELSE acc[i])
        ELSE IF acc[i] # <<>> THEN acc[i][1]
        ELSE IF f.hasdef THEN f.def ELSE ""
  IN IF \E i \in 1..Len(S.fields) : missing(i) THEN Bad
     ELSE Ok([i \in 1..Len(S.fields) |-> val(i)])

\* own: the start tag attributes come from; nodes: the content; wrap: own tags to put around the rest
StructFrom(S, attrs, nodes, wrap) ==
  LET z   == [i \in 1..Len(S.fields) |-> <<>>]
      a0  == AttrFold(S, attrs, z)
      st  == NodeFold(S, Norm(nodes), [acc |-> a0.acc, err |-> a0.err, rest |-> <<>>])
      doc == IF wrap = <<>> THEN st.rest ELSE <<[wrap[1] EXCEPT !.c = Merge(st.rest)]>>
      st2 == IF S.flats THEN FlatFold(S, doc, st) ELSE st
  IN IF st2.err THEN Bad ELSE Assemble(S, st2.acc)

(* ---------------------------------------------------------------- enumerations *)
\* a variant with named fields is only written: its fields say nothing of which variant it was
VariantOf(E, key, unitOnly) ==
  LET hits == {i \in 1..Len(E.vs) : E.vs[i].n = key /\ E.vs[i].card # "named" /\ (unitOnly => E.vs[i].card = "unit")} IN
  IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j
TagOf(E, x) == LET hits == {i \in 1..Len(x.a) : x.a[i][2] = E.tag} IN
               IF hits = {} THEN <<>> ELSE <<x.a[CHOOSE i \in hits : \A j \in hits : i <= j][3]>>

\* st = [v: <<>> or <<value>>, err, stop]; unit variants and matching text settle the value
TextStep(E, st, x) ==
  LET i == VariantOf(E, x.t, TRUE) IN
  IF i = 0 THEN st ELSE [st EXCEPT !.v = << <<E.vs[i].id>> >>, !.stop = TRUE]

\* an element whose name (or tag) selects variant i
PayloadStep(E, st, x, i) ==
  LET v == E.vs[i]
      r == IF v.simple THEN ScalarVariant(v.base, x.c) ELSE DecodeEl(v.base, x, FALSE)
  IN IF v.card = "unit" THEN [st EXCEPT !.v = << <<v.id>> >>, !.stop = TRUE]
     ELSE IF ~r.ok THEN [st EXCEPT !.err = TRUE]
     ELSE IF v.card = "one" THEN [st EXCEPT !.v = << <<v.id, r.v>> >>]
     ELSE IF v.card = "opt" THEN [st EXCEPT !.v = << <<v.id, <<r.v>> >> >>]
     ELSE IF st.v = <<>> THEN [st EXCEPT !.v = << <<v.id, <<r.v>> >> >>]
     ELSE IF st.v[1][1] # v.id THEN [st EXCEPT !.err = TRUE]
     ELSE [st EXCEPT !.v = << <<v.id, Append(st.v[1][2], r.v)>> >>]

EnumOver(E, nodes, st0) ==
  FoldLeft(LAMBDA st, x :
    IF st.err \/ st.stop THEN st
    ELSE IF x.k = "t" THEN TextStep(E, st, x)
    ELSE IF E.tag # "" /\ TagOf(E, x) = <<>> THEN [st EXCEPT !.err = TRUE]
    ELSE LET i == VariantOf(E, IF E.tag # "" THEN TagOf(E, x)[1] ELSE x.n, FALSE) IN
      IF i = 0 THEN st ELSE PayloadStep(E, st, x, i),
    st0, nodes)

EnumRes(E, st) == IF st.err THEN Bad ELSE IF st.v = <<>> THEN Ok(E.def) ELSE Ok(st.v[1])
Z == [v |-> <<>>, err |-> FALSE, stop |-> FALSE]

\* an enumeration inside its own element (nested, or named like the type at the root)
EnumEl(E, x) == EnumRes(E, EnumOver(E, Norm(x.c), Z))
\* a tagged enumeration: the tag of the own element first, then the content
EnumTagged(E, x) ==
  LET s0 == EnumOver(E, <<x>>, Z)
  IN EnumRes(E, IF s0.err \/ s0.stop THEN s0 ELSE EnumOver(E, Norm(x.c), s0))

(* ----------------------------------------------------------------- documents *)
Custom(how, x) ==
  LET m == Norm(x.c)
      ks == SelectSeq(x.a, LAMBDA a : a[2] = "k")
      RECURSIVE All(_)
      All(c) == Join([i \in 1..Len(c) |->
                  IF c[i].k = "t" THEN "=" \o c[i].t
                  ELSE "<" \o c[i].n \o (IF c[i].n = "x" THEN "" ELSE All(Norm(c[i].c)) \o ">")])
  IN CASE how = "none" -> Ok(x.n)
       [] how = "start" -> Ok(IF ks = <<>> THEN "" ELSE ks[1][3])
       [] how = "first" -> Ok(IF m = <<>> THEN "-" ELSE IF m[1].k = "t" THEN "=" \o m[1].t ELSE "<" \o m[1].n)
       [] how = "all" -> Ok(All(m))

DecodeEl(tn, x, top) ==
  LET t == T[tn] IN
  CASE t.k = "new" -> (LET m == Norm(x.c) IN ParseNew(t.how, t.base, IF First(m) = "t" THEN m[1].t ELSE ""))
    [] t.k = "custom" -> Custom(t.how, x)
    [] t.k = "struct" -> IF top /\ ~RootOk(t, x) THEN Bad ELSE StructFrom(t, x.a, x.c, <<x>>)
    [] t.k = "enum" ->
       IF top /\ ~RootOk(t, x) THEN Bad
       ELSE IF t.tag # "" THEN EnumTagged(t, x)
       ELSE IF ~top \/ x.n = t.root THEN EnumEl(t, x)
       ELSE \* at the root, an element that is not the type's own may be a variant itself
         LET i == VariantOf(t, x.n, FALSE)
             s == EnumOver(t, <<x>>, Z)
         IN IF i = 0 THEN EnumEl(t, x)
            ELSE IF s.err \/ s.stop THEN EnumRes(t, s) ELSE Bad

(* A type without an element of its own reads the root elements themselves; if the first one is
   neither a member nor the type's own it is taken as a wrapper and nothing after it is read. *)
Wrapped(t, x) == (x.n = t.root /\ x.ns = t.ns) \/ FieldOf(t, x) = 0
FlatEnum(t, forest) ==
  LET x == forest[1]
      \* unknown root elements are entered; leaving one named like the first ends the reading
      step(st, y) ==
        IF st.err \/ st.stop THEN st
        ELSE IF VariantOf(t, y.n, FALSE) # 0 THEN EnumOver(t, <<y>>, st)
        ELSE LET s2 == EnumOver(t, Norm(y.c), st) IN
             IF y.n = x.n THEN [s2 EXCEPT !.stop = TRUE] ELSE s2
  IN FoldLeft(step, Z, forest)
DecodeFlat(t, forest) ==
  LET x == forest[1] IN
  IF ~RootOk(t, x) THEN Bad
  ELSE IF t.k = "struct" THEN
    IF Wrapped(t, x) THEN StructFrom(t, x.a, x.c, <<x>>) ELSE StructFrom(t, x.a, forest, <<>>)
  ELSE EnumRes(t, FlatEnum(t, forest))
\* whether these root elements settle the result, whatever follows
FlatDone(t, forest) ==
  Len(forest) > 0 /\
  IF t.k = "struct" THEN Wrapped(t, forest[1]) ELSE LET st == FlatEnum(t, forest) IN st.err \/ st.stop

DecodeDoc(tn, doc) ==
  LET t == T[tn] f == Elems(doc) IN
  IF Len(f) = 0 THEN Bad
  ELSE IF t.flat THEN DecodeFlat(t, f)
  ELSE DecodeEl(tn, f[1], TRUE)
=============================================================================
