------------------------------- MODULE DecMC ---------------------------------
(* Decimal arithmetic against TLC's own on every pair of small integers.     *)
EXTENDS Dec, TLC
CONSTANT N
VARIABLES a, b
Init == a \in (-N)..N /\ b = -N
Next == b < N /\ b' = b + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
Arithmetic ==
  LET A == ToDec(a)  B == ToDec(b) IN
  /\ Add(A, B) = ToDec(a + b) /\ Sub(A, B) = ToDec(a - b)
  /\ (Lt(A, B) <=> a < b) /\ (Le(A, B) <=> a <= b)
  /\ (b >= 0 => MulSmall(A, b) = ToDec(a * b))
  /\ (a >= 0 /\ b > 0 => DivModNat(A, b).q = ToDec(a \div b) /\ DivModNat(A, b).r = a % b)
  /\ Norm(A) = A /\ IsIntText(A)
=============================================================================
