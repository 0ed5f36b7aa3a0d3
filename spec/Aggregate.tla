------------------------------ MODULE Aggregate ------------------------------
(* What the downsampler makes of the fields of lines.                        *)
EXTENDS LineProto, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Floating point numbers as integers, scaled by 10^Scale.                   *)
Scale == 30
RECURSIVE Nought(_)
Nought(k) == IF k <= 0 THEN "" ELSE "0" \o Nought(k - 1)
AllDigits(s) == \A i \in 1..Len(s) : Chr(s, i) \in Digits
RECURSIVE Small(_, _)
Small(s, acc) == IF s = "" THEN acc ELSE Small(From(s, 2), acc * 10 + DigitVal[Chr(s, 1)])

Unsigned(s) == IF s # "" /\ Chr(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
FloatParts(s) ==
  LET u == Unsigned(s)
      e == IndexIn(u, {"e", "E"}, 1)
      m == IF e = 0 THEN u ELSE UpTo(u, e - 1)
      x == IF e = 0 THEN "0" ELSE From(u, e + 1)
      d == IndexIn(m, {"."}, 1)
      int == IF d = 0 THEN m ELSE UpTo(m, d - 1)
      frac == IF d = 0 THEN "" ELSE From(m, d + 1)
  IN  [ok |-> /\ AllDigits(int) /\ AllDigits(frac) /\ Len(int) + Len(frac) > 0
              /\ IsDigits(Unsigned(x)) /\ Len(x) < 5,
       neg |-> IsNeg(s), int |-> int, frac |-> frac, x |-> x]
IsFloat(s) == FloatParts(s).ok
Fixed(s) ==
  LET p == FloatParts(s)
      e == Small(Unsigned(p.x), 0)
      shift == Scale - Len(p.frac) + (IF IsNeg(p.x) THEN -e ELSE e)
      digits == p.int \o p.frac
      all == IF shift >= 0 THEN digits \o Nought(shift)
             ELSE IF Len(digits) + shift <= 0 THEN "0" ELSE UpTo(digits, Len(digits) + shift)
  IN  Norm((IF p.neg THEN "-" ELSE "") \o all)

-----------------------------------------------------------------------------
(* The fields of a line: a sequence of [name, kind, val], possibly ending    *)
(* with something that is not a field (kind "bad").                          *)
Kind(v) == IF Len(v) >= 2 /\ LastChr(v) = "i" /\ IsIntText(UpTo(v, Len(v) - 1)) THEN "int"
           ELSE IF IsFloat(v) THEN "float" ELSE "other"
Bad == [name |-> "", kind |-> "bad", val |-> ""]
RECURSIVE FieldsFrom(_, _)
FieldsFrom(s, acc) ==
  IF s = "" THEN acc
  ELSE LET k == TokenRaw(From(s, 2), {"="}) IN
       IF k.tok = "" \/ Len(k.rest) < 2 THEN Append(acc, Bad)
       ELSE LET v == From(k.rest, 2) IN
            IF Chr(v, 1) = "," THEN Append(acc, Bad)
            ELSE IF Chr(v, 1) = "\""
            THEN LET q == QuotedString(v) IN
                 IF ~q.ok THEN Append(acc, Bad)
                 ELSE IF q.rest # "" /\ Chr(q.rest, 1) # "," THEN Append(acc, Bad)
                 ELSE FieldsFrom(q.rest, Append(acc, [name |-> k.tok, kind |-> "string", val |-> q.val]))
            ELSE LET t == TokenRaw(v, {","}) IN
                 FieldsFrom(t.rest, Append(acc, [name |-> k.tok, kind |-> Kind(t.tok), val |-> t.tok]))
(* A line without its timestamp: key (measurement and tags) and fields.      *)
Split2(s) == LET k == TokenRaw(s, {" "}) IN [key |-> k.tok, fields |-> FieldsFrom(k.rest, <<>>)]

(* The values a field has had: their number, sum and largest magnitude, and  *)
(* the latest one.                                                           *)
Number(f) == IF f.kind = "int" THEN Norm(UpTo(f.val, Len(f.val) - 1)) ELSE IF f.kind = "float" THEN Fixed(f.val) ELSE "0"
One(f) == [kind |-> f.kind, n |-> 1, sum |-> Number(f), max |-> Abs(Number(f)), last |-> f.val]
More2(o, f) == [o EXCEPT !.n = @ + 1, !.sum = Add(@, Number(f)),
                         !.max = IF Lt(@, Abs(Number(f))) THEN Abs(Number(f)) ELSE @, !.last = f.val]
(* Fields fs are added to series s (a function from names); result and       *)
(* number of errors.                                                         *)
RECURSIVE AddFields(_, _, _)
AddFields(s, fs, errs) ==
  IF fs = <<>> THEN [s |-> s, errs |-> errs]
  ELSE LET f == Head(fs) IN
       IF f.kind = "bad" THEN [s |-> s, errs |-> errs + 1]
       ELSE IF f.name \notin DOMAIN s THEN AddFields(s @@ (f.name :> One(f)), Tail(fs), errs)
       ELSE IF s[f.name].kind # f.kind THEN AddFields(s, Tail(fs), errs + 1)
       ELSE AddFields([s EXCEPT ![f.name] = More2(@, f)], Tail(fs), errs)

(* Is f (a field of an output line) what becomes of the values in o?         *)
Distance(o, f) == Abs(Sub(MulSmall(Number(f), o.n), o.sum))
IsResult(o, f) ==
  /\ f.kind = o.kind
  /\ CASE o.kind = "int" -> Lt(Distance(o, f), ToDec(o.n))
       [] o.kind = "float" -> LET m == MulSmall(o.max, o.n) IN
            \* (the precision of 64 bits, at each step)
            Le(Distance(o, f), Add(ToDec(o.n), IF Len(m) <= 16 THEN "0" ELSE MulSmall(UpTo(m, Len(m) - 16), 4 * o.n)))
       [] OTHER -> f.val = o.last
(* Does an output line (without timestamp) show series s?                    *)
Shows(s, fs) ==
  /\ Len(fs) = Cardinality(DOMAIN s)
  /\ \A i \in 1..Len(fs) : fs[i].name \in DOMAIN s /\ IsResult(s[fs[i].name], fs[i])
  /\ {fs[i].name : i \in 1..Len(fs)} = DOMAIN s

-----------------------------------------------------------------------------
(* Periods are aligned to multiples of their length since the beginning of   *)
(* year 1.                                                                   *)
YearOne == "62135596800000000000"
RECURSIVE Reduce(_, _)
Reduce(a, b) == IF Lt(a, b) THEN a ELSE Reduce(SubNat(a, b), b)
RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, b, i, rem) ==
  IF i > Len(a) THEN rem
  ELSE ModFrom(a, b, i + 1, Reduce(StripZeros(rem \o Chr(a, i)), b))
ModNat(a, b) == ModFrom(a, b, 1, "0")
(* The end of the period that holds time t.                                  *)
PeriodEnd(t, p) == Add(Sub(t, ModNat(Add(t, YearOne), p)), p)
=============================================================================
