------------------------------- MODULE Limbs -------------------------------
(***************************************************************************)
(* Nonnegative fixed point numbers of higher precision: a sequence of K    *)
(* limbs to the base 2^15, the first one being the integer part.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
K == 6            \* 75 fractional bits
B15 == 2^15
FromInt(n) == [k \in 1..K |-> IF k = 1 THEN n ELSE 0]
IsZero(a) == \A k \in 1..K : a[k] = 0

\* a \div n for 0 < n < 2^16
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, n, k, r) ==
  IF k > K THEN <<>> ELSE LET t == r * B15 + a[k] IN <<t \div n>> \o DivFrom(a, n, k + 1, t % n)
LDiv(a, n) == DivFrom(a, n, 1, 0)

RECURSIVE Carry(_, _, _)
Carry(a, k, cy) == \* from the last limb to the first; limbs may be negative before
  IF k = 0 THEN <<>>
  ELSE LET t == a[k] + cy IN IF k = 1 THEN <<t>> ELSE Append(Carry(a, k - 1, t \div B15), t % B15)
Norm(a) == Carry(a, K, 0)
LAdd(a, b) == Norm([k \in 1..K |-> a[k] + b[k]])
LSub(a, b) == Norm([k \in 1..K |-> a[k] - b[k]])
LMul(a, n) == Norm([k \in 1..K |-> a[k] * n])          \* small n

RECURSIVE AtanL(_, _, _, _)        \* atan(1/n) from pow = 1/n
AtanL(pow, n2, k, plus) ==
  IF IsZero(pow) THEN FromInt(0)
  ELSE LET rest == AtanL(LDiv(pow, n2), n2, k + 2, ~plus) IN
       IF plus THEN LAdd(rest, LDiv(pow, k)) ELSE LSub(rest, LDiv(pow, k))
RECURSIVE AtanhL(_, _, _)
AtanhL(pow, n2, k) == IF IsZero(pow) THEN FromInt(0) ELSE LAdd(AtanhL(LDiv(pow, n2), n2, k + 2), LDiv(pow, k))

\* Machin: pi/4 = 4 atan(1/5) - atan(1/239), so pi/2 = 8 atan(1/5) - 2 atan(1/239)
HalfPiL == LSub(LMul(AtanL(LDiv(FromInt(1), 5), 25, 1, TRUE), 8), LMul(AtanL(LDiv(FromInt(1), 239), 57121, 1, TRUE), 2))
\* Euler: pi/4 = atan(1/2) + atan(1/3), another way to the same number
HalfPiE == LMul(LAdd(AtanL(LDiv(FromInt(1), 2), 4, 1, TRUE), AtanL(LDiv(FromInt(1), 3), 9, 1, TRUE)), 2)
Ln2L == LMul(AtanhL(LDiv(FromInt(1), 3), 9, 1), 2)
\* ln 2 = 14 atanh(1/31) + 10 atanh(1/49) + 6 atanh(1/161)
Ln2E == LAdd(LAdd(LMul(AtanhL(LDiv(FromInt(1), 31), 961, 1), 14), LMul(AtanhL(LDiv(FromInt(1), 49), 2401, 1), 10)),
             LMul(AtanhL(LDiv(FromInt(1), 161), 25921, 1), 6))
\* rounded to 28 fractional bits
ToFix(a) == a[1] * 2^28 + a[2] * 2^13 + ((a[3] + 2) \div 4)
AgreeL(a, b) == \A k \in 1..(K - 1) : a[k] = b[k]
=============================================================================
