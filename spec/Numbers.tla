------------------------------- MODULE Numbers ------------------------------
(* Literals as strings and the numbers they denote, as digit strings: TLC's  *)
(* integers have 32 bits.                                                    *)
EXTENDS Integers, Sequences, TLC
Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
HexDigit == [c \in DOMAIN Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
  IF c \in DOMAIN Digits THEN Digits[c]
  ELSE CASE c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
         [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15]
Lowers == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Ch(s, i) == SubSeq(s, i, i)
Rest(s, i) == SubSeq(s, i, Len(s))
AllIn(s, set) == \A i \in 1 .. Len(s) : Ch(s, i) \in set

\* --- numbers as digit strings -----------------------------------------------------
RECURSIVE Strip(_), Zeros(_), NumIn(_, _, _), Leq(_, _, _)
Strip(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip(Rest(s, 2)) ELSE s
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
NumIn(s, base, acc) == IF s = "" THEN acc ELSE NumIn(Rest(s, 2), base, acc * base + HexDigit[Ch(s, 1)])
Leq(a, b, i) ==                 \* digit strings of equal length
  IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN Leq(a, b, i + 1) ELSE Digits[Ch(a, i)] < Digits[Ch(b, i)]
MaxInt == "9223372036854775807"
FitsInt(d) == Len(d) < Len(MaxInt) \/ (Len(d) = Len(MaxInt) /\ Leq(d, MaxInt, 1))

\* conversions give <<ok, digits>>; the digits of a float are those of its thousandfold
None == <<FALSE, "">>
Radix(s, base, set, max) ==     \* the literal without its prefix
  IF s = "" \/ ~AllIn(s, set) \/ Len(Strip(s)) > max THEN None ELSE <<TRUE, ToString(NumIn(s, base, 0))>>
OctDigits == {"0", "1", "2", "3", "4", "5", "6", "7"}
ToInt(lit) ==
  IF lit = "" THEN None
  ELSE IF lit = "0" THEN <<TRUE, "0">>
  ELSE IF Ch(lit, 1) # "0" THEN (IF AllIn(lit, DOMAIN Digits) /\ FitsInt(lit) THEN <<TRUE, lit>> ELSE None)
  ELSE IF Ch(lit, 2) \in {"x", "X"} THEN Radix(Rest(lit, 3), 16, DOMAIN HexDigit, 7)
  ELSE Radix(Rest(lit, 2), 8, OctDigits, 9)
Big(d) == IF Len(d) > 12 THEN "big" ELSE d
Thousand(d) == IF d = "0" THEN "0" ELSE Big(d \o "000")
\* decimal: digits [. digits] [e sign digits]
RECURSIVE Span(_, _)
Span(s, i) == IF i <= Len(s) /\ Ch(s, i) \in DOMAIN Digits THEN Span(s, i + 1) ELSE i     \* end of the digits from i
Decimal(s) ==
  LET i == Span(s, 1)
      dot == i <= Len(s) /\ Ch(s, i) = "."
      j == IF dot THEN Span(s, i + 1) ELSE i
      e == j <= Len(s) /\ Ch(s, j) \in {"e", "E"}
      sgn == e /\ j < Len(s) /\ Ch(s, j + 1) \in {"+", "-"}
      k0 == IF sgn THEN j + 2 ELSE j + 1
      k == IF e THEN Span(s, k0) ELSE j
      frac == IF dot THEN SubSeq(s, i + 1, j - 1) ELSE ""
      exp == IF e THEN NumIn(SubSeq(s, k0, k - 1), 10, 0) * (IF sgn /\ Ch(s, j + 1) = "-" THEN -1 ELSE 1) ELSE 0
      mant == Strip(SubSeq(s, 1, i - 1) \o frac)
      shift == 3 + exp - Len(frac)
  IN IF (i = 1 /\ frac = "") \/ (e /\ k = k0) \/ k # Len(s) + 1 THEN None
     ELSE IF mant = "0" \/ mant = "" THEN <<TRUE, "0">>
     ELSE IF Len(mant) + shift - 3 > 309 THEN None
     ELSE IF shift < 0 /\ Len(mant) + shift > 12 THEN <<TRUE, "big">>
     ELSE <<TRUE, Big(mant \o Zeros(IF shift > 12 THEN 12 ELSE shift))>>
ToFloat(lit) ==
  IF lit = "" THEN None
  ELSE IF Ch(lit, 1) = "0" /\ Len(lit) > 1 /\ Ch(lit, 2) \in {"x", "X"}
       THEN LET h == ToInt(lit) IN IF h[1] THEN <<TRUE, Thousand(h[2])>> ELSE None
  ELSE IF Ch(lit, 1) = "0" /\ Len(lit) > 1 /\ ToInt(lit)[1] THEN <<TRUE, Thousand(ToInt(lit)[2])>>
  ELSE Decimal(lit)
=============================================================================
