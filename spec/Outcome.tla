------------------------------- MODULE Outcome -------------------------------
(* The outcome of deserializing a token sequence into a type. *)
EXTENDS Denote, Xml, Binary

(* Only the deserialized element has to be complete and well formed; types without an element of
   their own read the whole input. *)
Outcome(tn, toks) ==
  LET r == Read(toks) IN
  IF T[tn].flat
  THEN IF Len(r.roots) > 0 /\ ((r.ok /\ Len(r.stack) = 0) \/ FlatDone(T[tn], r.roots))
       THEN DecodeDoc(tn, r.roots) ELSE Bad
  ELSE IF Len(r.roots) = 0 THEN Bad ELSE DecodeDoc(tn, <<r.roots[1]>>)

(* Agreement of a reported value g with the specified value w of a type: equal, except that a float may
   be specified by a literal it must be the nearest number to. *)
RECURSIVE Agrees(_, _, _)
AgreesBase(base, w, g) ==
  IF base \in Scalars THEN w = g \/ (base \in {"f32", "f64"} /\ Len(w) > 1 /\ At(w, 1) = "~" /\ Near(base, SubSeq(w, 2, Len(w)), g))
  ELSE Agrees(base, w, g)
AgreesCard(card, base, w, g) ==
  IF card \in {"one", "named"} THEN AgreesBase(base, w, g)
  ELSE Len(w) = Len(g) /\ \A i \in 1..Len(w) : AgreesBase(base, w[i], g[i])
Agrees(tn, w, g) ==
  LET t == T[tn] IN
  CASE t.k = "struct" -> Len(w) = Len(g) /\ \A i \in 1..Len(w) : AgreesCard(t.fields[i].card, t.fields[i].base, w[i], g[i])
    [] t.k = "enum" -> /\ w[1] = g[1] /\ Len(w) = Len(g)
                       /\ Len(w) > 1 => LET v == t.vs[CHOOSE i \in 1..Len(t.vs) : t.vs[i].id = w[1]] IN AgreesCard(v.card, v.base, w[2], g[2])
    [] t.k = "new" /\ t.how = "prim" -> AgreesBase(t.base, w, g)
    [] OTHER -> w = g
=============================================================================
