-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* The mathematics behind the approximations: two dynamical systems,       *)
(*   - a point that turns by a fixed angle, N steps a quarter turn (its    *)
(*     coordinates are cosine and sine), and                               *)
(*   - a number that grows by a fixed factor, N steps a doubling (its      *)
(*     value is the exponential to the base 2).                            *)
(* All functions that micromath approximates are decided against them:     *)
(* atan2 is the angle for which the turned point has the given direction,  *)
(* ln is the time in which growth reaches the given number, and so on.     *)
(* TLC checks that the systems are what they claim to be (they close up,   *)
(* they are homomorphisms, they agree with the power series at each step), *)
(* and writes the trajectory, from which the harness interpolates.         *)
(***************************************************************************)
EXTENDS Fix, Limbs, Sequences, TLC, Json, IOUtils
CONSTANT N          \* steps of a quarter turn, and of a doubling

VARIABLES i,        \* steps taken
          c, s,     \* the turned point (cosine, sine), starting at (1, 0)
          g         \* the growing number, starting at 1
vars == <<i, c, s, g>>

\* pi / 2 and ln 2, by two series each (see Limbs)
HalfPi == ToFix(HalfPiL)
Ln2 == ToFix(Ln2L)

\* power series at x in [0, 1.6]
RECURSIVE SinTerms(_, _, _)
SinTerms(t, x2, k) == IF t = 0 THEN 0 ELSE t + SinTerms(-DivN(DivN(Mul(t, x2), 1), (k + 1) * (k + 2)), x2, k + 2)
\* x*x may exceed 2: use halves, and the double angle
SinS(x) == SinTerms(x, Mul(x, x), 1)
CosS(x) == SinTerms(F, Mul(x, x), 0)
SinX(x) == LET h == x \div 2 IN 2 * Mul(SinS(h), CosS(h))
CosX(x) == LET h == x \div 2 IN F - 2 * Mul(SinS(h), SinS(h))
RECURSIVE ExpTerms(_, _, _)
ExpTerms(t, x, k) == IF t = 0 THEN 0 ELSE t + ExpTerms(DivN(Mul(t, x), k + 1), x, k + 1)
ExpX(x) == LET h == ExpTerms(F, x \div 2, 0) IN IF x = 0 THEN F ELSE Mul(h, h)

Angle(k) == \* k/N of a quarter turn, in radians
  (HalfPi \div N) * k + (((HalfPi % N) * k) \div N)
Time(k) ==  \* k/N of ln 2
  (Ln2 \div N) * k + (((Ln2 % N) * k) \div N)

\* one step of either system, held with 2^-28: the step angle and factor are refined by the power series
StepC == CosX(Angle(1))
StepS == SinX(Angle(1))
StepG == ExpX(Time(1))

Init == i = 0 /\ c = F /\ s = 0 /\ g = F
Next == /\ i < N
        /\ i' = i + 1
        /\ c' = Mul(c, StepC) - Mul(s, StepS)
        /\ s' = Mul(s, StepC) + Mul(c, StepS)
        /\ g' = Mul(g, StepG)
Spec == Init /\ [][Next]_vars

\* error bounds, in units of 2^-28: a few units a step, since every product truncates
Eps == 8 + 6 * i
OnCircle == Near(MulU(AbsF(c), AbsF(c)) + MulU(AbsF(s), AbsF(s)), F, 3 * Eps)
Series == Near(c, CosX(Angle(i)), Eps + 40) /\ Near(s, SinX(Angle(i)), Eps + 40) /\ Near(g, ExpX(Time(i)), 2 * Eps + 60)
Range == c >= -Eps /\ c <= F /\ s >= 0 /\ s <= F + Eps /\ g >= F /\ g <= 2 * F
Closes == i = N => Near(c, 0, Eps) /\ Near(s, F, Eps) /\ Near(g, 2 * F, 2 * Eps)
\* homomorphism: the square of the state is the state after twice the time
Doubles == 2 * i <= N =>
  LET a2 == Angle(2 * i) IN
  /\ Near(Mul(c, c) - Mul(s, s), CosX(a2), 6 * Eps + 60) /\ Near(2 * Mul(s, c), SinX(a2), 6 * Eps + 60)
  /\ Near(MulU(g, g), ExpX(Time(2 * i)), 6 * Eps + 60)
\* speed: the derivative of the point is the point a quarter turn ahead, that of growth is growth
Monotone == [][c' < c /\ s' > s /\ g' > g]_vars
Speed == [][ /\ Near(s' - s, Mul(c, Angle(1)), Mul(Angle(1), Angle(1)) + 40)
             /\ Near(c' - c, -Mul(s, Angle(1)), Mul(Angle(1), Angle(1)) + 40)
             /\ Near(g' - g, Mul(g, Time(1)), 2 * Mul(Time(1), Time(1)) + 40) ]_vars

\* pi and ln 2 to 2^-28 (checked against themselves: the quarter turn ends at (0, 1), the doubling at 2)
ASSUME Constants ==
  /\ AgreeL(HalfPiL, HalfPiE) /\ AgreeL(Ln2L, Ln2E)
  /\ Near(SinX(HalfPi), F, 40) /\ Near(CosX(HalfPi), 0, 40) /\ Near(ExpX(Ln2), 2 * F, 80)

\* the trajectory by the power series (its errors do not add up), written for the harness
Nodes == [k \in 1..(N + 1) |-> [i |-> k - 1, cos |-> CosX(Angle(k - 1)), sin |-> SinX(Angle(k - 1)), exp2 |-> ExpX(Time(k - 1))]]
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, <<[n |-> N, halfpi |-> HalfPiL, ln2 |-> Ln2L]>> \o Nodes)
=============================================================================
