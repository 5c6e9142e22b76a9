------------------------------ MODULE FloatMC ------------------------------
(***************************************************************************)
(* Every number of a small format, and every sequence of polyfill calls on *)
(* it: the bit rules have the mathematical meaning.                        *)
(***************************************************************************)
EXTENDS Float, TLC

VARIABLES s, m,         \* the register
          last          \* the last call: [fn, s, m, t], or fn = "none"
vars == <<s, m, last>>

\* the value of finite bits in units of 2^(1 - Bias - P), the smallest subnormal
Unit == 2^(Bias + P - 1)                                     \* 1.0
Mag(b) == IF Expo(b) = 0 THEN Man(b) ELSE (2^P + Man(b)) * 2^(Expo(b) - 1)
Val(sg, b) == IF sg = 1 THEN -Mag(b) ELSE Mag(b)

\* the definitions (\div is floor division)
FloorV(v) == (v \div Unit) * Unit
CeilV(v) == -FloorV(-v)
TruncV(v) == IF v < 0 THEN CeilV(v) ELSE FloorV(v)
Abs(v) == IF v < 0 THEN -v ELSE v
RoundV(v) == \* nearest integer, ties away from zero
  LET n == CHOOSE n \in {FloorV(v), CeilV(v)} :
             \A k \in {FloorV(v), CeilV(v)} : \/ Abs(v - n) < Abs(v - k)
                                              \/ Abs(v - n) = Abs(v - k) /\ Abs(n) >= Abs(k)
  IN n
Def(fn, v) ==
  CASE fn = "floor" -> FloorV(v) [] fn = "ceil" -> CeilV(v) [] fn = "trunc" -> TruncV(v)
    [] fn = "round" -> RoundV(v) [] fn = "fract" -> v - TruncV(v)

\* the value of the result of a rule applied to finite bits
RuleV(fn, sg, b) ==
  LET r == Rule(fn, sg, Expo(b)) IN
  IF r.op = "LOW" THEN (IF sg = 1 THEN -1 ELSE 1) * (b % 2^r.k) * 2^(Bias + P - 1 - r.k)
  ELSE Val(Sign(r, sg, 0), Apply(r, b))

\* the bits of a representable value
Bits(v) == CHOOSE b \in 0..(InfBits - 1) : Mag(b) = Abs(v)
SignOf(v, sg) == IF v = 0 THEN sg ELSE IF v < 0 THEN 1 ELSE 0

Init == s \in {0, 1} /\ m \in 0..(InfBits + ManMax) /\ last = [fn |-> "none"]

Polyfill(fn) ==
  /\ fn \in {"trunc", "fract", "floor", "ceil", "round"} /\ IsFinite(m)
  /\ LET v == RuleV(fn, s, m) IN s' = SignOf(v, s) /\ m' = Bits(v)
  /\ last' = [fn |-> fn, s |-> s, m |-> m]
SignOp(fn, t) ==
  /\ fn \in {"abs", "neg", "copysign"}
  /\ s' = Sign(Rule(fn, s, Expo(m)), s, t) /\ m' = Apply(Rule(fn, s, Expo(m)), m)
  /\ last' = [fn |-> fn, s |-> s, m |-> m, t |-> t]
Next == \/ \E fn \in Fns : Polyfill(fn)
        \/ \E fn \in Fns, t \in {0, 1} : SignOp(fn, t)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == s \in {0, 1} /\ m \in 0..(InfBits + ManMax)
X == Val(s, m)
\* the rules agree with the definitions
Conforms == IsFinite(m) => \A fn \in {"trunc", "fract", "floor", "ceil", "round"} : RuleV(fn, s, m) = Def(fn, X)
\* and so every step that was taken
StepConforms == last.fn \in {"trunc", "fract", "floor", "ceil", "round"} => X = Def(last.fn, Val(last.s, last.m))
\* the definitions mean what the properties say
Adjacent == IsFinite(m) =>
  /\ FloorV(X) <= X /\ X < FloorV(X) + Unit /\ CeilV(X) >= X /\ X > CeilV(X) - Unit
  /\ TruncV(X) + Def("fract", X) = X /\ Abs(TruncV(X)) <= Abs(X) /\ Abs(Def("fract", X)) < Unit
  /\ 2 * Abs(X - RoundV(X)) <= Unit
  /\ RoundV(-X) = -RoundV(X) /\ CeilV(X) = -FloorV(-X)
  /\ (2 * Abs(X - RoundV(X)) = Unit => Abs(RoundV(X)) > Abs(X))
\* the integer and parity rules
Integers32 == IsFinite(m) => /\ IsInteger(m) = (X % Unit = 0)
                             /\ IsOdd(m) = (X % Unit = 0 /\ (X \div Unit) % 2 = 1)
\* results are representable, and integers are fixed points
Representable == IsFinite(m) => \A fn \in {"trunc", "fract", "floor", "ceil", "round"} :
  \E b \in 0..(InfBits - 1) : Mag(b) = Abs(RuleV(fn, s, m))
Idempotent == last.fn \in {"trunc", "floor", "ceil", "round"} =>
  \A fn \in {"trunc", "floor", "ceil", "round"} : RuleV(fn, s, m) = X
SignsKept == last.fn \in {"abs", "neg", "copysign"} => /\ m = last.m
  /\ (last.fn = "abs" => s = 0) /\ (last.fn = "neg" => s # last.s) /\ (last.fn = "copysign" => s = last.t)
=============================================================================
