------------------------------- MODULE Binary -------------------------------
(* Which binary floating point number a decimal literal denotes: the nearest one, the even one of two.
   Numbers are sequences of limbs base 10^4, least first, without leading zeros (zero is <<>>). *)
EXTENDS Lex

Base == 10000
NoLead(a) == LET RECURSIVE Cut(_) Cut(n) == IF n = 0 THEN <<>> ELSE IF a[n] # 0 THEN SubSeq(a, 1, n) ELSE Cut(n - 1) IN Cut(Len(a))
Limbs(ds) ==
  LET d == Rep("0", (4 - (Len(ds) % 4)) % 4) \o ds n == Len(d) \div 4 IN
  NoLead(FoldLeft(LAMBDA a, i : Append(a, ToNat(SubSeq(d, 4 * (n - i) + 1, 4 * (n - i) + 4))), <<>>, [i \in 1..n |-> i]))
\* k up to 2^14
Times(a, k) ==
  LET st == FoldLeft(LAMBDA s, x : LET y == x * k + s.c IN [o |-> Append(s.o, y % Base), c |-> y \div Base], [o |-> <<>>, c |-> 0], a) IN
  IF st.c = 0 THEN st.o ELSE IF st.c < Base THEN Append(st.o, st.c) ELSE st.o \o <<st.c % Base, st.c \div Base>>
RECURSIVE Times2(_, _)
Times2(a, n) == IF n = 0 THEN a ELSE IF n >= 13 THEN Times2(Times(a, 8192), n - 13) ELSE Times2(Times(a, 2), n - 1)
Times10(a, n) == IF a = <<>> THEN a ELSE [i \in 1..(n \div 4) |-> 0] \o Times(a, CASE n % 4 = 0 -> 1 [] n % 4 = 1 -> 10 [] n % 4 = 2 -> 100 [] OTHER -> 1000)
\* a >= b
Geq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) > Len(b)
  ELSE LET RECURSIVE G(_) G(i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE G(i - 1) IN G(Len(a))
Minus(a, b) ==
  NoLead(FoldLeft(LAMBDA s, i : LET y == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - s.c IN
                    IF y < 0 THEN [o |-> Append(s.o, y + Base), c |-> 1] ELSE [o |-> Append(s.o, y), c |-> 0],
                  [o |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i]).o)

Width == [f32 |-> 24, f64 |-> 53]
EMin  == [f32 |-> -149, f64 |-> -1074]
EMax  == [f32 |-> 104, f64 |-> 971]
Over  == [f32 |-> 40, f64 |-> 310]     \* from 10^Over on: infinite
Under == [f32 |-> -50, f64 |-> -330]   \* below 10^Under: zero

PlusOne(bits) ==   \* most significant first; <<>> when it overflows
  LET RECURSIVE P(_) P(i) == IF i = 0 THEN <<>> ELSE IF bits[i] = 0 THEN [bits EXCEPT ![i] = 1] \o <<>> ELSE LET r == P(i - 1) IN IF r = <<>> THEN <<>> ELSE [r EXCEPT ![i] = 0] IN P(Len(bits))

Zero(t) == [m |-> [i \in 1..Width[t] |-> 0], e |-> EMin[t]]
Inf     == [m |-> <<>>, e |-> 0]
\* the number 0.ds * 10^exp (ds without zeros at either end) as m * 2^e
Round(t, ds, exp) ==
  IF ds = "" \/ exp < Under[t] THEN Zero(t)
  ELSE IF exp > Over[t] THEN Inf
  ELSE
  LET w  == Width[t]
      k  == exp - Len(ds)
      n  == IF k >= 0 THEN Times10(Limbs(ds), k) ELSE Limbs(ds)
      d  == IF k >= 0 THEN <<1>> ELSE Times10(<<1>>, -k)
      \* n / d against 2^j
      below(j) == IF j >= 0 THEN ~Geq(n, Times2(d, j)) ELSE ~Geq(Times2(n, -j), d)
      RECURSIVE Exp(_)
      Exp(e) == IF below(e + w) THEN e ELSE Exp(e + 1)
      g  == ((exp - 1) * 33219) \div 10000 - w
      e  == Exp(IF g < EMin[t] THEN EMin[t] ELSE g)
      \* x / y = n / d / 2^e; bits of the quotient one by one
      x  == IF e >= 0 THEN n ELSE Times2(n, -e)
      y  == Times2(d, (IF e >= 0 THEN e ELSE 0) + w - 1)
      st == FoldLeft(LAMBDA s, i : IF Geq(s.r, y) THEN [r |-> Times(Minus(s.r, y), 2), b |-> Append(s.b, 1)] ELSE [r |-> Times(s.r, 2), b |-> Append(s.b, 0)],
                     [r |-> x, b |-> <<>>], [i \in 1..w |-> i])
      \* what is left, against one half: st.r against y
      up == Geq(st.r, y) /\ (st.r # y \/ st.b[w] = 1)
      m  == IF up THEN PlusOne(st.b) ELSE st.b
      r  == IF m # <<>> THEN [m |-> m, e |-> e] ELSE [m |-> <<1>> \o [i \in 1..(w - 1) |-> 0], e |-> e + 1]
  IN IF r.e > EMax[t] THEN Inf ELSE r

\* whether the number written g is the one the literal s denotes
Near(t, s, g) ==
  LET p == FloatParts(s) q == FloatParts(g) IN
  IF ~q.ok \/ ~p.ok THEN FALSE
  ELSE IF p.kind # "num" THEN q.kind = p.kind /\ (p.kind = "nan" \/ q.neg = p.neg)
  ELSE /\ q.neg = p.neg
       /\ q.kind \in {"num", "inf"}
       /\ \/ q.kind = "num" /\ q.ds = p.ds /\ q.exp = p.exp
          \/ Round(t, p.ds, p.exp) = (IF q.kind = "inf" THEN Inf ELSE Round(t, q.ds, q.exp))
=============================================================================
