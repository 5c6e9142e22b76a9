------------------------------- MODULE Float -------------------------------
(***************************************************************************)
(* A binary floating point format with P mantissa bits and E exponent bits *)
(* (binary32 is P = 23, E = 8), and two descriptions of the polyfills of   *)
(* micromath on it:                                                        *)
(*   - the mathematical one (Floor, Ceil, ... on scaled integers), and     *)
(*   - bit rules: what happens to the bits of x, as a function of its sign *)
(*     and exponent only.                                                  *)
(* FloatMC checks that both agree for every number of small formats;       *)
(* PolyfillRows checks the binary32 rules on a window of significands, and *)
(* emits them for the replay on every binary32 bit pattern.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS P, E

Bias == 2^(E-1) - 1
EMax == 2^E - 1
ManMax == 2^P - 1
OneBits == Bias * 2^P            \* the bits of 1.0
InfBits == EMax * 2^P            \* the bits of infinity

\* A number is a sign s \in {0, 1} and magnitude bits m (exponent and mantissa).
Expo(m) == m \div 2^P
Man(m) == m % 2^P
IsInf(m) == m = InfBits
IsNaN(m) == m > InfBits
IsFinite(m) == m < InfBits

\* Is a finite number an integer, and is it odd?  An integer iff the lowest k bits are zero, odd iff the next bit
\* is set too; k = -1: every number with this exponent is an even integer, k = P + 1: only zero is an integer.
IntBits(e) == IF e < Bias THEN P + 1 ELSE IF e <= Bias + P THEN P - (e - Bias) ELSE -1
IsInteger(m) == LET k == IntBits(Expo(m)) IN IF k = P + 1 THEN m = 0 ELSE k = -1 \/ m % 2^k = 0
IsOdd(m) == LET k == IntBits(Expo(m)) IN k \in 0..P /\ m % 2^k = 0 /\ (m \div 2^k) % 2 = 1

---------------------------------------------------------------------------
\* Rules.  op: ID    the same bits
\*             CONST the bits k
\*             NZ    zero for zero, otherwise the bits k
\*             CLR   the lowest k bits cleared
\*             UP    the lowest k bits cleared, after carrying them upwards if any is set
\*             HALF  2^(k-1) added, then the lowest k bits cleared
\*             LOW   the number (lowest k bits) / 2^k
\*             NAN   any NaN
\*             SPEC  ID for infinity (NAN if k = 1), NAN for NaN
\*             RAW   ID for every pattern, NaN included
\* sg: keep, clear, flip, arg (taken from the second argument); cmp: num (== or both NaN), bits
Fns == {"trunc", "fract", "floor", "ceil", "round", "abs", "neg", "copysign", "signum"}

R(op, k, sg, cmp) == [op |-> op, k |-> k, sg |-> sg, cmp |-> cmp]
N(op, k) == R(op, k, "keep", "num")

FracBits(e) == P - (e - Bias)     \* fractional mantissa bits of exponent field e >= Bias

Away(toward, e) ==                \* floor of negative, ceil of positive numbers: away from zero
  IF toward THEN (IF e < Bias THEN N("CONST", 0) ELSE IF e < Bias + P THEN N("CLR", FracBits(e)) ELSE N("ID", 0))
            ELSE (IF e < Bias THEN N("NZ", OneBits) ELSE IF e < Bias + P THEN N("UP", FracBits(e)) ELSE N("ID", 0))

Rule(fn, s, e) ==
  CASE fn = "abs"      -> R("RAW", 0, "clear", "bits")
    [] fn = "neg"      -> R("RAW", 0, "flip", "bits")
    [] fn = "copysign" -> R("RAW", 0, "arg", "bits")
    [] fn = "signum"   -> IF e = EMax THEN R("SIGNUM", OneBits, "keep", "bits") ELSE R("CONST", OneBits, "keep", "bits")
    [] e = EMax        -> N("SPEC", IF fn = "fract" THEN 1 ELSE 0)
    [] fn = "trunc"    -> Away(TRUE, e)
    [] fn = "floor"    -> Away(s = 0, e)
    [] fn = "ceil"     -> Away(s = 1, e)
    [] fn = "round"    -> IF e < Bias - 1 THEN N("CONST", 0) ELSE IF e = Bias - 1 THEN N("CONST", OneBits)
                          ELSE IF e < Bias + P THEN N("HALF", FracBits(e)) ELSE N("ID", 0)
    [] fn = "fract"    -> IF e < Bias THEN N("ID", 0) ELSE IF e < Bias + P THEN N("LOW", FracBits(e)) ELSE N("CONST", 0)

\* The magnitude bits after a rule (not LOW, NAN)
Apply(r, m) ==
  CASE r.op \in {"ID", "RAW"} -> m
    [] r.op = "CONST" -> r.k
    [] r.op = "NZ"    -> IF m = 0 THEN 0 ELSE r.k
    [] r.op = "CLR"   -> m - (m % 2^r.k)
    [] r.op = "UP"    -> IF m % 2^r.k = 0 THEN m ELSE m - (m % 2^r.k) + 2^r.k
    [] r.op = "HALF"  -> (m + 2^(r.k-1)) - ((m + 2^(r.k-1)) % 2^r.k)

Sign(r, s, t) == CASE r.sg = "keep" -> s [] r.sg = "clear" -> 0 [] r.sg = "flip" -> 1 - s [] r.sg = "arg" -> t
=============================================================================
