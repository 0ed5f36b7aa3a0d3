-------------------------------- MODULE Dec --------------------------------
(* Integers of any size as decimal strings ("-12", "0", "345"), because TLC's *)
(* integers have 32 bits while timestamps and field values have 64.           *)
EXTENDS Text

IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in Digits
IsNeg(s) == StartsWith(s, "-")
Abs(s) == IF IsNeg(s) THEN From(s, 2) ELSE s

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s

(* Canonical form of an optionally negative string of digits.  *)
Norm(s) == LET a == StripZeros(Abs(s)) IN IF IsNeg(s) /\ a # "0" THEN "-" \o a ELSE a
Neg(s) == IF s = "0" THEN s ELSE IF IsNeg(s) THEN From(s, 2) ELSE "-" \o s

(* Comparison of canonical non-negative numbers.  *)
CmpNat(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpStr(a, b)
Cmp(a, b) ==
  CASE IsNeg(a) /\ ~IsNeg(b) -> -1
    [] ~IsNeg(a) /\ IsNeg(b) -> 1
    [] ~IsNeg(a) /\ ~IsNeg(b) -> CmpNat(a, b)
    [] OTHER -> CmpNat(Abs(b), Abs(a))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0

DigitAt(s, k) == IF k > Len(s) THEN 0 ELSE DigitVal[Chr(s, Len(s) - k + 1)]  \* k-th from the right

RECURSIVE AddNatFrom(_, _, _, _, _)
AddNatFrom(a, b, k, carry, acc) ==
  IF k > Len(a) /\ k > Len(b) THEN (IF carry = 0 THEN acc ELSE DigitChr[carry] \o acc)
  ELSE LET t == DigitAt(a, k) + DigitAt(b, k) + carry
       IN  AddNatFrom(a, b, k + 1, t \div 10, DigitChr[t % 10] \o acc)
AddNat(a, b) == StripZeros(AddNatFrom(a, b, 1, 0, ""))

RECURSIVE SubNatFrom(_, _, _, _, _)
SubNatFrom(a, b, k, borrow, acc) ==   \* a >= b
  IF k > Len(a) THEN acc
  ELSE LET t == DigitAt(a, k) - DigitAt(b, k) - borrow
       IN  IF t < 0 THEN SubNatFrom(a, b, k + 1, 1, DigitChr[t + 10] \o acc)
                    ELSE SubNatFrom(a, b, k + 1, 0, DigitChr[t] \o acc)
SubNat(a, b) == StripZeros(SubNatFrom(a, b, 1, 0, ""))

Add(a, b) ==
  CASE ~IsNeg(a) /\ ~IsNeg(b) -> AddNat(a, b)
    [] IsNeg(a) /\ IsNeg(b) -> Norm("-" \o AddNat(Abs(a), Abs(b)))
    [] OTHER -> LET p == IF IsNeg(a) THEN b ELSE a
                    n == Abs(IF IsNeg(a) THEN a ELSE b)
                IN  IF CmpNat(p, n) >= 0 THEN SubNat(p, n) ELSE Norm("-" \o SubNat(n, p))
Sub(a, b) == Add(a, Neg(b))

RECURSIVE MulSmallFrom(_, _, _, _, _)
MulSmallFrom(a, m, k, carry, acc) ==
  IF k > Len(a)
  THEN (IF carry = 0 THEN acc
        ELSE MulSmallFrom(a, m, k, carry \div 10, DigitChr[carry % 10] \o acc))
  ELSE LET t == DigitAt(a, k) * m + carry
       IN  MulSmallFrom(a, m, k + 1, t \div 10, DigitChr[t % 10] \o acc)
(* a * m for a small natural m (m < 10^8).  *)
MulSmall(a, m) ==
  IF m = 0 THEN "0"
  ELSE LET r == StripZeros(MulSmallFrom(Abs(a), m, 1, 0, ""))
       IN  IF IsNeg(a) /\ r # "0" THEN "-" \o r ELSE r
Zeros(n) == SubSeq("000000000000000000", 1, n)
MulPow10(a, n) == IF a = "0" THEN a ELSE a \o Zeros(n)

RECURSIVE ToDecFrom(_, _)
ToDecFrom(n, acc) == IF n < 10 THEN DigitChr[n] \o acc ELSE ToDecFrom(n \div 10, DigitChr[n % 10] \o acc)
ToDec(n) == IF n < 0 THEN "-" \o ToDecFrom(-n, "") ELSE ToDecFrom(n, "")

RECURSIVE DivModFrom(_, _, _, _, _)
DivModFrom(a, m, i, rem, q) ==
  IF i > Len(a) THEN [q |-> StripZeros(q), r |-> rem]
  ELSE LET t == rem * 10 + DigitVal[Chr(a, i)]
       IN  DivModFrom(a, m, i + 1, t % m, q \o DigitChr[t \div m])
(* Quotient and remainder of a natural a by a small natural m (m < 10^8).  *)
DivModNat(a, m) == DivModFrom(a, m, 1, 0, "")

MaxInt64 == "9223372036854775807"
MinInt64 == "-9223372036854775808"
InInt64(a) == Le(MinInt64, a) /\ Le(a, MaxInt64)

(* What a decimal 64 bit integer literal must look like.  *)
IsIntText(s) == IsDigits(Abs(s)) /\ InInt64(Norm(s))
=============================================================================
