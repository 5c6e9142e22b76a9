-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed point numbers with 28 fractional bits, for TLC's 32-bit integers: *)
(* One = 2^28, and products, quotients and square roots of numbers in      *)
(* [0, 2) are computed in halves of 14 bits, each truncated by at most 3   *)
(* units of 2^-28 (4e-9).                                                  *)
(***************************************************************************)
EXTENDS Integers
F == 2^28
H == 2^14

\* a * b for 0 <= a, b <= 2, a * b < 4 
MulU(a, b) ==
  LET a1 == a \div H  a0 == a % H  b1 == b \div H  b0 == b % H
  IN a1 * b1 + ((a1 * b0) \div H) + ((a0 * b1) \div H) + ((((a1 * b0) % H) + ((a0 * b1) % H) + ((a0 * b0) \div H)) \div H)
AbsF(a) == IF a < 0 THEN -a ELSE a
Mul(a, b) == IF (a < 0) # (b < 0) THEN -MulU(AbsF(a), AbsF(b)) ELSE MulU(AbsF(a), AbsF(b))

\* a / n for a small integer n > 0
DivN(a, n) == IF a < 0 THEN -((-a) \div n) ELSE a \div n

\* a / b for 0 <= a < 2*b, b <= 2: binary long division
RECURSIVE DivBits(_, _, _, _)
DivBits(r, b, q, n) ==
  IF n = 0 THEN q
  ELSE LET r2 == 2 * r IN IF r2 >= b THEN DivBits(r2 - b, b, 2 * q + 1, n - 1) ELSE DivBits(r2, b, 2 * q, n - 1)
DivU(a, b) == IF a >= b THEN F + DivBits(a - b, b, 0, 28) ELSE DivBits(a, b, 0, 28)
Div(a, b) == IF a < 0 THEN -DivU(-a, b) ELSE DivU(a, b)

\* square root of a in [0, 2]: the largest r with r*r <= a, bit by bit
RECURSIVE SqrtBits(_, _, _)
SqrtBits(a, r, bit) ==
  IF bit = 0 THEN r
  ELSE IF MulU(r + bit, r + bit) <= a THEN SqrtBits(a, r + bit, bit \div 2) ELSE SqrtBits(a, r, bit \div 2)
Sqrt(a) == SqrtBits(a, 0, F)

Near(a, b, eps) == AbsF(a - b) <= eps
=============================================================================
