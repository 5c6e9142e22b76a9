-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* IEEE 754 arithmetic of a format (P mantissa, E exponent bits), defined  *)
(* by its results: r is the result of an operation if and only if the      *)
(* exact (rational) result lies between the two midpoints next to r, or on *)
(* one of them if r is even.  A number is [s |-> sign, m |-> magnitude     *)
(* bits]; exact results are N * 2^k / D with natural N, D of any size.     *)
(***************************************************************************)
EXTENDS Float, Big
\* finite magnitude bits m stand for Signif(m) * 2^Scale(m)
Signif(m) == IF Expo(m) = 0 THEN Man(m) ELSE 2^P + Man(m)
Scale(m) == (IF Expo(m) = 0 THEN 1 ELSE Expo(m)) - Bias - P
\* compares a * 2^i with n * 2^k / d
CmpQ(a, i, n, k, d) ==
  LET l == BMul(a, d) IN
  IF i >= k THEN BCmp(Shl(l, i - k), n) ELSE BCmp(l, Shl(n, k - i))
\* the midpoint above the magnitude m (for the largest finite one: where infinity begins) against n * 2^k / d
MidAbove(m, n, k, d) == CmpQ(Nat2Big(2 * Signif(m) + 1), Scale(m) - 1, n, k, d)
\* infinite magnitude bits are what numbers from the last midpoint on are rounded to
Rounded(m, n, k, d) ==
  /\ m >= 0 /\ m <= InfBits
  /\ m < InfBits => LET c == MidAbove(m, n, k, d) IN c > 0 \/ (c = 0 /\ m % 2 = 0)
  /\ m > 0 => LET c == MidAbove(m - 1, n, k, d) IN c < 0 \/ (c = 0 /\ m % 2 = 0)
Exactly(m, n, k) == m < InfBits /\ CmpQ(Nat2Big(Signif(m)), Scale(m), n, k, <<1>>) = 0

Nan(x) == IsNaN(x.m)
Inf(x) == IsInf(x.m)
Zero(x) == x.m = 0
Minus(x) == [x EXCEPT !.s = 1 - @]
Xor(x, y) == (x.s + y.s) % 2
Is(r, s, m) == r.s = s /\ r.m = m
\* the sum of signed numbers (-1)^s * a * 2^i and (-1)^t * b * 2^j, rounded; exact zeros are positive unless both are negative
SumIs(s, a, i, t, b, j, r) ==
  LET k == IF i < j THEN i ELSE j
      u == Shl(a, i - k)  v == Shl(b, j - k)  c == BCmp(u, v) IN
  IF s = t THEN r.s = s /\ Rounded(r.m, BAdd(u, v), k, <<1>>)
  ELSE IF c = 0 THEN Is(r, 0, 0)
  ELSE IF c > 0 THEN r.s = s /\ Rounded(r.m, BSub(u, v), k, <<1>>)
  ELSE r.s = t /\ Rounded(r.m, BSub(v, u), k, <<1>>)
AddIs(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ (Inf(x) /\ Inf(y) /\ x.s # y.s) THEN Nan(r)
  ELSE IF Inf(x) THEN r = x ELSE IF Inf(y) THEN r = y
  ELSE SumIs(x.s, Nat2Big(Signif(x.m)), Scale(x.m), y.s, Nat2Big(Signif(y.m)), Scale(y.m), r)
SubIs(x, y, r) == IF Nan(y) THEN Nan(r) ELSE AddIs(x, Minus(y), r)
Prod(x, y) == BMul(Nat2Big(Signif(x.m)), Nat2Big(Signif(y.m)))
MulIs(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ (Inf(x) /\ Zero(y)) \/ (Zero(x) /\ Inf(y)) THEN Nan(r)
  ELSE IF Inf(x) \/ Inf(y) THEN Is(r, Xor(x, y), InfBits)
  ELSE r.s = Xor(x, y) /\ Rounded(r.m, Prod(x, y), Scale(x.m) + Scale(y.m), <<1>>)
DivIs(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ (Inf(x) /\ Inf(y)) \/ (Zero(x) /\ Zero(y)) THEN Nan(r)
  ELSE IF Inf(x) \/ Zero(y) THEN Is(r, Xor(x, y), InfBits)
  ELSE IF Inf(y) THEN Is(r, Xor(x, y), 0)
  ELSE r.s = Xor(x, y) /\ Rounded(r.m, Nat2Big(Signif(x.m)), Scale(x.m) - Scale(y.m), Nat2Big(Signif(y.m)))
\* a * 2^n modulo b, for 0 <= a < b < 2^(P+1)
Stride == IF P > 20 THEN 6 ELSE 3
RECURSIVE ShlMod(_, _, _)
ShlMod(a, n, b) == IF n = 0 THEN a ELSE LET t == MinN(n, Stride) IN ShlMod((a * 2^t) % b, n - t, b)
\* the remainder of a quotient that is rounded towards zero, which is exact
RemIs(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ Inf(x) \/ Zero(y) THEN Nan(r)
  ELSE IF Inf(y) \/ Zero(x) THEN r = x
  ELSE LET d == Scale(x.m) - Scale(y.m)  a == Signif(x.m)  b == Signif(y.m) IN
       r.s = x.s /\ (IF d >= 0 THEN Exactly(r.m, Nat2Big(ShlMod(a % b, d, b)), Scale(y.m))
                     ELSE IF -d > P + 1 THEN r.m = x.m            \* y is larger than x
                     ELSE LET c == BCmp(Nat2Big(a), Shl(Nat2Big(b), -d)) IN
                          IF c < 0 THEN r.m = x.m ELSE Exactly(r.m, Nat2Big(a % (b * 2^(-d))), Scale(x.m)))
\* x * y + z rounded once
FmaIs(x, y, z, r) ==
  LET s == Xor(x, y) IN
  IF Nan(x) \/ Nan(y) \/ Nan(z) \/ (Inf(x) /\ Zero(y)) \/ (Zero(x) /\ Inf(y)) THEN Nan(r)
  ELSE IF Inf(x) \/ Inf(y) THEN IF Inf(z) /\ z.s # s THEN Nan(r) ELSE Is(r, s, InfBits)
  ELSE IF Inf(z) THEN r = z
  ELSE SumIs(s, Prod(x, y), Scale(x.m) + Scale(y.m), z.s, Nat2Big(Signif(z.m)), Scale(z.m), r)
OpIs(op, x, y, r) ==
  CASE op = "add" -> AddIs(x, y, r) [] op = "sub" -> SubIs(x, y, r) [] op = "mul" -> MulIs(x, y, r)
    [] op = "div" -> DivIs(x, y, r) [] op = "rem" -> RemIs(x, y, r)
\* -1, 0, 1, or 2 if unordered
Key(x) == IF x.s = 1 THEN -x.m ELSE x.m
Compare(x, y) == IF Nan(x) \/ Nan(y) THEN 2 ELSE IF Key(x) < Key(y) THEN -1 ELSE IF Key(x) > Key(y) THEN 1 ELSE 0
=============================================================================
