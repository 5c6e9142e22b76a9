------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A register machine over numbers that binary32 holds exactly: quarters   *)
(* of integers, as integers in units of 1/4.  The register acc is changed  *)
(* by the calls of the scalar API, in all forms in which operators exist:  *)
(* with acc on the left (forms FF, Ff, fF and their assignment forms) or   *)
(* on the right.  SessionMC lets it run on a small range and checks the    *)
(* laws of the operations; SessionTrace validates histories of the code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
U == 4
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
Floor(v) == (v \div U) * U
Ceil(v) == -Floor(-v)
Trunc(v) == IF v < 0 THEN Ceil(v) ELSE Floor(v)
Round(v) == Sgn(v) * (((Abs(v) + (U \div 2)) \div U) * U)
TRem(a, b) == Sgn(a) * (Abs(a) % Abs(b))          \* the remainder of %, with the sign of a

\* a op b = r?
Binary(op, a, b, r) ==
  CASE op = "add" -> r = a + b
    [] op = "sub" -> r = a - b
    [] op = "mul" -> U * r = a * b
    [] op = "div" -> b # 0 /\ r * b = U * a
    [] op = "rem" -> b # 0 /\ r = TRem(a, b)
    [] op = "copysign" -> Abs(r) = Abs(a) /\ (a # 0 => (b < 0) = (r < 0))        \* b # 0
    [] op = "rem_euclid" -> b # 0 /\ r = a % Abs(b)
    [] op = "div_euclid" -> b # 0 /\ LET q == r \div U IN r = q * U /\ 0 <= a - q * b /\ a - q * b < Abs(b)
BinaryOps == {"add", "sub", "mul", "div", "rem", "copysign", "rem_euclid", "div_euclid"}
Unary(op, a, r) ==
  CASE op = "neg" -> r = -a
    [] op = "abs" -> r = Abs(a)
    [] op = "signum" -> a # 0 => r = U * Sgn(a)
    [] op = "trunc" -> r = Trunc(a)
    [] op = "fract" -> r = a - Trunc(a)
    [] op = "floor" -> r = Floor(a)
    [] op = "ceil" -> r = Ceil(a)
    [] op = "round" -> r = Round(a)
    [] op \in {"bits", "f32", "text", "zero_add", "one_mul"} -> r = a     \* there and back
UnaryOps == {"neg", "abs", "signum", "trunc", "fract", "floor", "ceil", "round", "bits", "f32", "text", "zero_add", "one_mul"}

RECURSIVE SumOf(_), ProdIs(_, _)
SumOf(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + SumOf(Tail(xs))
RECURSIVE Times(_, _)
Times(p, xs) == IF xs = <<>> THEN p ELSE Times((p * Head(xs)) \div U, Tail(xs))   \* exact by choice of the factors
ProdIs(xs, r) == r = Times(U, xs)
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN U ELSE (Power(a, n - 1) * a) \div U                  \* whole numbers a
Order(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
=============================================================================
