------------------------------ MODULE CurvesMC ------------------------------
(***************************************************************************)
(* The functions of Curves are what they claim to be: a walk over numbers  *)
(* x = i * 2^-e (both signs), with a partner y, checks the addition        *)
(* theorems, derivatives are bounded as they should be, known values, and  *)
(* the logarithm as inverse of the exponential; the trajectory of Elem is  *)
(* met by an entirely different computation.                               *)
(***************************************************************************)
EXTENDS Curves
CONSTANTS MaxI, MaxE
Eps(k) == Dy(0, <<1>>, k - W)
Same(a, b, k) == DLe(DAbs(DSub(a, b)), Eps(k))
\* 1/m - 1/(3 m^3) + ... (arctangent), or all positive (area hyperbolic tangent)
RECURSIVE Inverses(_, _, _, _)
Inverses(t, m2, j, alt) == IF DZero(t) THEN t ELSE
  DAdd(DivBy(t, j), LET u == DivBy(t, m2) IN Inverses(IF alt THEN DNeg(u) ELSE u, m2, j + 2, alt))
Atan(m) == Inverses(DivBy(Unit, m), m * m, 1, TRUE)
Atanh(m) == Inverses(DivBy(Unit, m), m * m, 1, FALSE)
VARIABLES x, y, stage
vars == <<x, y, stage>>
None == Whole(0)
Numbers == {Fixed(Dy(s, Nat2Big(i), -e)) : s \in {0, 1}, i \in 0..MaxI, e \in 0..MaxE} \cup {Fixed(Dy(s, Nat2Big(i), 0)) : s \in {0, 1}, i \in {22, 355, 710, 103993, 8388607}}
Few == {Fixed(Dy(s, Nat2Big(i), -5)) : s \in {0, 1}, i \in {0, 1, 7, 50, 100, 1000}}
Init == x = None /\ y = None /\ stage = 0
Next == \/ stage = 0 /\ x' \in Numbers /\ stage' = 1 /\ UNCHANGED y
        \/ stage = 1 /\ y' \in Few /\ stage' = 2 /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
OnCircle == stage = 1 => LET p == Turn(x) IN Same(DAdd(DSq(p.c), DSq(p.s)), One, 10)
Even == stage = 1 => LET p == Turn(x)  q == Turn(DNeg(x)) IN DEq(p.c, q.c) /\ DEq(p.s, DNeg(q.s))
\* the point turned by x and then y is the point turned by both
Turns == stage = 2 => LET p == Turn(x)  q == Turn(y)  r == Turn(DAdd(x, y))
                          k == 12 + Bits(Floor(x)) IN
  Same(DSub(DMul(p.c, q.c), DMul(p.s, q.s)), r.c, k) /\ Same(DAdd(DMul(p.s, q.c), DMul(p.c, q.s)), r.s, k)
Small(a) == Floor(a) < 120
Grows == stage = 2 /\ Small(x) => LET a == Exp(x)  b == Exp(y)  c == Exp(DAdd(x, y)) IN
  DLe(DAbs(DSub(DMul(a, b), c)), DMul(c, Eps(14)))
\* bounds of the tangent lines: 1 + x <= e^x, e^x (1 - x) <= 1;  x - x^3/6 <= sin x <= x, 1 - x^2/2 <= cos x (x >= 0)
Tangents == stage = 1 /\ Small(x) => LET e == Exp(x)  a == DAbs(x)  p == Turn(a) IN
  /\ DLe(DAdd(One, x), DAdd(e, DMul(e, Eps(12)))) /\ DLe(DMul(e, DSub(One, x)), DAdd(One, DMul(e, Eps(12))))
  /\ DLe(p.s, DAdd(a, Eps(12))) /\ DLe(DTimes(DSub(a, p.s), 6), DAdd(DMul(a, DSq(a)), Eps(12)))
  /\ DLe(DSub(One, DScale(DSq(a), -1)), DAdd(p.c, Eps(12)))
\* the logarithm of the number with the bits nearest to e^x is x, up to the rounding of the bits
F32Bits(d) == LET w == LB * (Len(d.n) - 1) + Bits(d.n[Len(d.n)])  k == w - 1 - P  IN \* truncated
  LET n == IF k >= 0 THEN Drop(Shl(d.n, LB - (k % LB)), k \div LB + 1) ELSE Shl(d.n, -k) IN (Value(n) - 2^P) + 2^P * (d.k + w - 1 + Bias)
Inverts == stage = 1 /\ Floor(x) < 87 => LET m == F32Bits(Exp(x)) IN DLe(DAbs(DSub(Ln(m), x)), Dy(0, <<1>>, 1 - P))
\* ln (x y) = ln x + ln y exactly, for products that are representable
Positive(i, e) == (Bias - e) * 2^P + (i - 16) * 2^(P - 4)         \* the bits of i/16 * 2^-e, 16 <= i < 32
LnAdds == stage = 1 /\ Floor(x) = 0 => \A e \in {-100, 0, 30} : \A i \in {17, 23, 31} :
  LET j == 16 + ((Len(x.n) + x.s) % 4)  p == i * j           \* i/16 * j/16
      h == IF p >= 512 THEN 1 ELSE 0
      m == (Bias + h) * 2^P + (p - 256 * 2^h) * 2^(P - 8 - h)
  IN Same(DAdd(Ln(Positive(i, e)), Ln(Positive(j, -e))), Ln(m), 16)
Constants == stage = 0 =>
  \* pi/4 = 4 atan(1/5) - atan(1/239); ln 2 = 2 atanh(1/3); ln 10 = 3 ln 2 + 2 atanh(1/9)
  /\ Same(Quarter, DScale(DSub(DScale(Atan(5), 2), Atan(239)), 1), 8) /\ Same(Ln2, DScale(Atanh(3), 1), 6)
  /\ Same(Ln10, DAdd(DTimes(Ln2, 3), DScale(Atanh(9), 1)), 8)
  /\ Same(DMul(Quarter, HalfPiBy), One, 3) /\ Same(DMul(Ln2, Ln2By), One, 3)
  /\ Same(Turn(Quarter).c, None, 6) /\ Same(Turn(Quarter).s, One, 6)
  /\ Same(Exp(Ln2), Whole(2), 6) /\ Same(Exp(Ln10), Whole(10), 8) /\ Same(Ln(OneBits), None, 0)
  /\ Same(Ln(OneBits + 2^P), Ln2, 0) /\ Same(Ln((Bias + 3) * 2^P + 2^(P - 2)), Ln10, 6)
=============================================================================
