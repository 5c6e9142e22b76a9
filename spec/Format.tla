------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The format of F32: its constants, classification of bit patterns, and   *)
(* the bits of integers, derived from the number of mantissa and exponent  *)
(* bits.  A counter walks over the integers that F32 can be converted from *)
(* (TLC checks the conversion at each), and classifies as it goes.         *)
(***************************************************************************)
EXTENDS Float, TLC, Json, IOUtils
VARIABLE n
Lo == -32768
Hi == 65535

\* bits of an integer of magnitude below 2^(P+1)
RECURSIVE Lg(_)
Lg(v) == IF v < 2 THEN 0 ELSE 1 + Lg(v \div 2)
MagBits(v) == IF v = 0 THEN 0 ELSE LET e == Lg(v) IN (Bias + e) * 2^P + (v - 2^e) * 2^(P - e)
SignBit(v) == IF v < 0 THEN 1 ELSE 0
AbsV(v) == IF v < 0 THEN -v ELSE v
\* and back: the value of bits with no fraction
ValueOf(m) == IF m = 0 THEN 0 ELSE LET e == Expo(m) - Bias IN 2^e + Man(m) \div 2^(P - e)

\* decimal digits (least significant first) of 2^k
RECURSIVE Dbl(_, _)
Dbl(d, c) == IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
             ELSE LET t == 2 * Head(d) + c IN <<t % 10>> \o Dbl(Tail(d), t \div 10)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE Dbl(Pow2(k - 1), 0)

EMaxFin == EMax - 1 - Bias                    \* exponent of the largest finite numbers
Constants == [
  fn |-> "constants",
  ZERO |-> <<0, 0>>, ONE |-> <<0, OneBits>>,
  RADIX |-> 2, MANTISSA_DIGITS |-> P + 1,
  DIGITS |-> Len(Pow2(P)) - 1,                \* 10^d <= 2^P
  EPSILON |-> <<0, (Bias - P) * 2^P>>,
  MIN |-> <<1, InfBits - 1>>, MAX |-> <<0, InfBits - 1>>, MIN_POSITIVE |-> <<0, 2^P>>,
  MIN_EXP |-> 2 - Bias, MAX_EXP |-> EMaxFin + 1,
  MAX_10_EXP |-> Len(Pow2(EMaxFin + 1)) - 1,      \* 10^e < 2^MAX_EXP, so <= MAX
  MIN_10_EXP |-> -(Len(Pow2(Bias - 1)) - 1),      \* 10^e >= 2^(1 - Bias)
  INFINITY |-> <<0, InfBits>>, NEG_INFINITY |-> <<1, InfBits>>, NAN |-> <<0, InfBits + 1>>, DEFAULT |-> <<0, 0>> ]

Init == n = Lo
Next == n < Hi /\ n' = n + 1
Spec == Init /\ [][Next]_n
\* conversion is exact, injective and monotone
Exact == ValueOf(MagBits(AbsV(n))) = AbsV(n)
Rises == [][ (n >= 0 => MagBits(n') > MagBits(n)) /\ (n < 0 => MagBits(AbsV(n')) < MagBits(AbsV(n))) ]_n
Integral == IsInteger(MagBits(AbsV(n))) /\ (IsOdd(MagBits(AbsV(n))) <=> n % 2 # 0)
\* the constants are the ends of the classes (n serves as an offset)
Ends == n \in 0..100 =>
  /\ ~IsFinite(InfBits + n) /\ IsNaN(InfBits + n) = (n > 0) /\ IsFinite(Constants.MAX[2] - n)
  /\ Expo(Constants.MIN_POSITIVE[2] + n) >= 1 /\ (n > 0 => Expo(Constants.MIN_POSITIVE[2] - n) = 0)
  /\ Expo(Constants.EPSILON[2]) = Bias - P /\ Constants.MAX_EXP = Bias + 1

\* one row for each sign, exponent and kind of mantissa (0: zero, 1: not zero)
ClassRow(k) == LET s == k \div (2 * (EMax + 1))  e == (k \div 2) % (EMax + 1)  z == k % 2
                   m == e * 2^P + z
                   b(t) == IF t THEN 1 ELSE 0
               IN [fn |-> "class", s |-> s, e |-> e, z |-> z, nan |-> b(IsNaN(m)), inf |-> b(IsInf(m)), fin |-> b(IsFinite(m)), pos |-> 1 - s, neg |-> s]
Rows == <<Constants>> \o [k \in 1..(4 * (EMax + 1)) |-> ClassRow(k - 1)]
   \o [k \in 1..(Hi - Lo + 1) |-> LET v == Lo + k - 1 IN [fn |-> "int", n |-> v, s |-> SignBit(v), m |-> MagBits(AbsV(v))]]
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
