-------------------------------- MODULE Lex --------------------------------
(* Lexical space and canonical form of the scalar types (the literals Rust's
   FromStr accepts and the text its Display writes), and XML white space.
   Values are canonical strings; TLC's 32-bit integers are never used to hold
   a number that comes from a document, ranges are decided on digit strings. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Ok(v) == [ok |-> TRUE, v |-> v]
Bad   == [ok |-> FALSE, v |-> ""]

At(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Digits   == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in Digits |-> CASE c="0"->0 [] c="1"->1 [] c="2"->2 [] c="3"->3 [] c="4"->4
                                [] c="5"->5 [] c="6"->6 [] c="7"->7 [] c="8"->8 [] c="9"->9]
DigitStr(n) == CASE n=0->"0" [] n=1->"1" [] n=2->"2" [] n=3->"3" [] n=4->"4"
                 [] n=5->"5" [] n=6->"6" [] n=7->"7" [] n=8->"8" [] n=9->"9"
Space    == {" ", "\t", "\n", "\r"}

Join(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN s
             ELSE LET h == Rep(s, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN s ELSE "")

(* ---------------------------------------------------------------- white space *)
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF Len(s) > 0 /\ At(s, 1) \in Space THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RTrim(s) == IF Len(s) > 0 /\ At(s, Len(s)) \in Space THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s)  == LTrim(RTrim(s))

\* the words of s, white space separated
Words(s) ==
  LET cs == Chars(s)
      f == FoldLeft(LAMBDA a, c :
             IF c \in Space THEN (IF a.cur = "" THEN a ELSE [cur |-> "", ws |-> Append(a.ws, a.cur)])
             ELSE [a EXCEPT !.cur = @ \o c], [cur |-> "", ws |-> <<>>], cs)
  IN IF f.cur = "" THEN f.ws ELSE Append(f.ws, f.cur)

(* ------------------------------------------------------------------- integers *)
AllIn(s, set) == \A i \in 1..Len(s) : At(s, i) \in set
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF Len(a) = 0 THEN TRUE
                ELSE LET x == DigitVal[At(a,1)] y == DigitVal[At(b,1)]
                     IN IF x # y THEN x < y ELSE LexLeq(SubSeq(a,2,Len(a)), SubSeq(b,2,Len(b)))
\* digit strings without leading zeros
NumLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b)

MaxOf == [i8 |-> "127", u8 |-> "255", i16 |-> "32767", u16 |-> "65535",
          i32 |-> "2147483647", u32 |-> "4294967295",
          i64 |-> "9223372036854775807", u64 |-> "18446744073709551615"]
MinOf == [i8 |-> "128", i16 |-> "32768", i32 |-> "2147483648", i64 |-> "9223372036854775808"]
Signed == {"i8", "i16", "i32", "i64"}
Ints   == DOMAIN MaxOf

ParseInt(t, s) ==
  LET sg   == IF Len(s) > 0 /\ At(s,1) \in {"+", "-"} THEN At(s,1) ELSE ""
      body == IF sg = "" THEN s ELSE SubSeq(s, 2, Len(s))
      mag  == StripZ(body)
  IN IF body = "" \/ ~AllIn(body, Digits) THEN Bad
     ELSE IF sg = "-" THEN (IF t \notin Signed \/ ~NumLeq(mag, MinOf[t]) THEN Bad
                            ELSE Ok(IF mag = "0" THEN "0" ELSE "-" \o mag))
     ELSE IF NumLeq(mag, MaxOf[t]) THEN Ok(mag) ELSE Bad

(* --------------------------------------------------------------------- floats *)
(* Accepted literals: [+-] (inf | infinity | nan | digits[.digits][(e|E)[+-]digits] | .digits...), letters
   in any case.  Canonical form: shortest plain decimal, exact for literals with few significant digits
   and moderate exponents (InFloatClass).  The value of any other literal is the literal itself, marked by "~":
   the number read must be the one nearest to it (Binary). *)
UpperOf == [c \in {"a","b","c","d","e","f","i","n","t","y"} |->
   CASE c="a"->"A" [] c="b"->"B" [] c="c"->"C" [] c="d"->"D" [] c="e"->"E" [] c="f"->"F"
     [] c="i"->"I" [] c="n"->"N" [] c="t"->"T" [] c="y"->"Y"]
Upper(s) == Join([i \in 1..Len(s) |-> IF At(s,i) \in DOMAIN UpperOf THEN UpperOf[At(s,i)] ELSE At(s,i)])

RECURSIVE SpanDigits(_, _)
SpanDigits(s, i) == IF i <= Len(s) /\ At(s, i) \in Digits THEN SpanDigits(s, i + 1) ELSE i
RECURSIVE StripR(_)
StripR(s) == IF Len(s) > 0 /\ At(s, Len(s)) = "0" THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE StripL(_)
StripL(s) == IF Len(s) > 0 /\ At(s, 1) = "0" THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE ToNat(_)
ToNat(s) == IF Len(s) = 0 THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal[At(s, Len(s))]

\* [ok, sgn, kind, ds: significant digits, exp: value = 0.ds * 10^exp]
FloatParts(s) ==
  LET sg   == IF Len(s) > 0 /\ At(s,1) \in {"+", "-"} THEN At(s,1) ELSE ""
      body == IF sg = "" THEN s ELSE SubSeq(s, 2, Len(s))
      neg  == sg = "-"
      up   == IF Len(body) <= 8 THEN Upper(body) ELSE ""
      i1   == SpanDigits(body, 1)
      ip   == SubSeq(body, 1, i1 - 1)
      dot  == i1 <= Len(body) /\ At(body, i1) = "."
      i2   == IF dot THEN SpanDigits(body, i1 + 1) ELSE i1
      fp   == IF dot THEN SubSeq(body, i1 + 1, i2 - 1) ELSE ""
      hase == i2 <= Len(body) /\ At(body, i2) \in {"e", "E"}
      es   == IF hase THEN SubSeq(body, i2 + 1, Len(body)) ELSE ""
      esg  == IF Len(es) > 0 /\ At(es,1) \in {"+", "-"} THEN At(es,1) ELSE ""
      ed   == IF esg = "" THEN es ELSE SubSeq(es, 2, Len(es))
      eok  == IF hase THEN ed # "" /\ AllIn(ed, Digits) ELSE i2 > Len(body)
      es0  == StripL(ed)
      ev   == IF Len(es0) > 5 THEN 99999 ELSE ToNat(es0)
      all  == ip \o fp
      ds   == StripL(StripR(all))
      lead == Len(all) - Len(StripL(all))     \* leading zeros of all
  IN IF up \in {"INF", "INFINITY"} THEN [ok |-> TRUE, neg |-> neg, kind |-> "inf", ds |-> "", exp |-> 0]
     ELSE IF up = "NAN" THEN [ok |-> TRUE, neg |-> neg, kind |-> "nan", ds |-> "", exp |-> 0]
     ELSE IF body = "" \/ (ip = "" /\ fp = "") \/ ~eok THEN [ok |-> FALSE, neg |-> FALSE, kind |-> "", ds |-> "", exp |-> 0]
     ELSE [ok |-> TRUE, neg |-> neg, kind |-> "num", ds |-> ds,
           exp |-> (Len(ip) - lead) + (IF esg = "-" THEN -ev ELSE ev)]

FloatDigits == [f32 |-> 6, f64 |-> 15]
FloatExp    == [f32 |-> 30, f64 |-> 290]
InFloatClass(t, p) == p.kind # "num" \/ p.ds = "" \/
   (Len(p.ds) <= FloatDigits[t] /\ p.exp <= FloatExp[t] /\ p.exp >= -FloatExp[t])

FloatCanon(p) ==
  LET m == CASE p.kind = "inf" -> "inf"
             [] p.kind = "nan" -> "NaN"
             [] p.ds = "" -> "0"
             [] p.exp <= 0 -> "0." \o Rep("0", -p.exp) \o p.ds
             [] p.exp >= Len(p.ds) -> p.ds \o Rep("0", p.exp - Len(p.ds))
             [] OTHER -> SubSeq(p.ds, 1, p.exp) \o "." \o SubSeq(p.ds, p.exp + 1, Len(p.ds))
  IN IF p.neg /\ p.kind # "nan" THEN "-" \o m ELSE m

ParseFloat(t, s) == LET p == FloatParts(s) IN
  IF ~p.ok THEN Bad ELSE IF InFloatClass(t, p) THEN Ok(FloatCanon(p)) ELSE Ok("~" \o s)

(* ------------------------------------------------------------------ other kinds *)
Scalars == {"String", "bool", "f32", "f64"} \cup Ints

\* lenient: 1 and 0 are booleans too (struct fields; not enum variants and newtypes)
Parse(t, s, lenient) ==
  CASE t = "String" -> Ok(s)
    [] t = "bool" -> (CASE s \in {"true", "false"} -> Ok(s)
                        [] lenient /\ s = "1" -> Ok("true")
                        [] lenient /\ s = "0" -> Ok("false")
                        [] OTHER -> Bad)
    [] t \in {"f32", "f64"} -> ParseFloat(t, s)
    [] OTHER -> ParseInt(t, s)

HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
HexLen == [u8 |-> 2, u16 |-> 4, u32 |-> 8, u64 |-> 16]
ParseHex(t, s) ==
  LET body == IF Len(s) > 0 /\ At(s,1) = "+" THEN SubSeq(s, 2, Len(s)) ELSE s
      mag  == StripZ(Upper(body))
  IN IF body = "" \/ ~AllIn(body, HexDigits) \/ Len(mag) > HexLen[t] THEN Bad
     ELSE Ok(IF Len(mag) = 1 THEN "0" \o mag ELSE mag)
KnownBits == {"00", "01", "02", "03", "80", "81", "82", "83"}

\* newtypes: a decimal/any scalar, hexadecimal, hexadecimal with known bits only, a length in cm
ParseNew(how, t, s) ==
  CASE how = "prim" -> Parse(t, s, FALSE)
    [] how = "hex"  -> ParseHex(t, s)
    [] how = "hexbits" -> (LET h == ParseHex(t, s) IN IF h.ok /\ h.v \in KnownBits THEN h ELSE Bad)
    [] how = "disp" -> (IF Len(s) < 2 \/ SubSeq(s, Len(s) - 1, Len(s)) # "cm" THEN Bad
                        ELSE LET n == ParseInt(t, SubSeq(s, 1, Len(s) - 2)) IN
                             IF n.ok THEN Ok(n.v \o "cm") ELSE Bad)
=============================================================================
