------------------------------ MODULE Attitude ------------------------------
(***************************************************************************)
(* Rotations by any angle, in the arithmetic of Curves: what axis_angle,   *)
(* to_euler and from_two_vectors may return, and a body that is turned     *)
(* around coordinate axes.  Vectors and quaternions are sequences of       *)
(* dyadic numbers.                                                         *)
(***************************************************************************)
EXTENDS Curves
Nums(v) == TLCEval([i \in 1..Len(v) |-> Num(v[i])])
AllFinite(v) == \A i \in 1..Len(v) : Finite(v[i])
Dot3(u, v) == DAdd(DMul(u[1], v[1]), DAdd(DMul(u[2], v[2]), DMul(u[3], v[3])))
Cross3(u, v) == TLCEval(<< DSub(DMul(u[2], v[3]), DMul(u[3], v[2])), DSub(DMul(u[3], v[1]), DMul(u[1], v[3])), DSub(DMul(u[1], v[2]), DMul(u[2], v[1])) >>)
Add3(u, v) == TLCEval([i \in 1..3 |-> DAdd(u[i], v[i])])
Scale3(k, u) == TLCEval([i \in 1..3 |-> DMul(k, u[i])])
Sq3(u) == Dot3(u, u)
Axis(q) == <<q[2], q[3], q[4]>>
Norm4(q) == DAdd(DSq(q[1]), Sq3(Axis(q)))
\* v + 2 w (a x v) + 2 a x (a x v) for unit quaternions; in general (w^2 - a.a) v + 2 (a.v) a + 2 w (a x v), for q = (w, a)
Rotated(q, v) == LET a == Axis(q) IN
  Add3(Scale3(DSub(DSq(q[1]), Sq3(a)), v), Add3(Scale3(DScale(Dot3(a, v), 1), a), Scale3(DScale(q[1], 1), Cross3(a, v))))
\* the directions of u and v differ by at most an angle whose sine is a
Aligned(u, v, a) == DSign(Dot3(u, v)) > 0 /\ DLe(Sq3(Cross3(u, v)), DMul(DSq(a), DMul(Sq3(u), Sq3(v))))
Half3(a) == DScale(a, -1)
---------------------------------------------------------------------------
AngleTol == Tolerance(20000)
AxisAngleIs(v, t, q) == LET p == Turn(Fixed(Half3(t))) IN
  /\ Near(q[1], p.c, AngleTol)
  /\ \A i \in 1..3 : Near(q[i + 1], DMul(p.s, v[i]), DAdd(DMul(AngleTol, DAbs(v[i])), Dy(0, <<1>>, -146)))
---------------------------------------------------------------------------
PitchTol == Tolerance(200000)
EulerTol == Tolerance(40000)
CosLock == TLCEval(Turn(Tolerance(600000)).c)
Eps == Tolerance(10)
\* of q = (w, x, y, z), of length 1 up to rounding: twice the products
EulerIs(q, roll, pitch, yaw) ==
  LET w == q[1]  x == q[2]  y == q[3]  z == q[4]
      Two(a) == DScale(a, 1)
      s == Clip(Two(DSub(DMul(w, y), DMul(x, z))), DNeg(One), One)
      Sine(a) == Turn(Clip(Fixed(a), DNeg(Quarter), Quarter)).s
      Limit == DAdd(DTimes(Quarter, 2), Tolerance(80000))
      Angle(a, sn, cs) == LET p == Turn(Fixed(a))  l2 == DAdd(DSq(sn), DSq(cs))  d == DAbs(DSub(DMul(p.s, cs), DMul(p.c, sn))) IN
        /\ DLe(DAbs(a), Limit) /\ DSign(DAdd(DMul(p.c, cs), DMul(p.s, sn))) > 0
        /\ \/ DLe(d, Eps)
           \/ DLe(DSq(DSub(d, Eps)), DMul(DSq(EulerTol), l2))
  IN /\ DLe(DAbs(pitch), DAdd(Quarter, PitchTol)) /\ DLe(DAbs(roll), Limit) /\ DLe(DAbs(yaw), Limit)
     /\ DLe(Sine(DSub(pitch, PitchTol)), DAdd(s, Eps)) /\ DLe(DSub(s, Eps), Sine(DAdd(pitch, PitchTol)))
     /\ DLt(DAbs(s), CosLock) =>
          /\ Angle(roll, Two(DAdd(DMul(w, x), DMul(y, z))), DSub(One, Two(DAdd(DSq(x), DSq(y)))))
          /\ Angle(yaw, Two(DAdd(DMul(w, z), DMul(x, y))), DSub(One, Two(DAdd(DSq(y), DSq(z)))))
---------------------------------------------------------------------------
Onto == Tolerance(199986)                     \* sin 0.02
HalfTol == Tolerance(100000)
Sin1 == Tolerance(174524)                     \* sin 1 degree
Long3(u) == DLe(Dy(0, <<1>>, -24), Sq3(u)) /\ DLe(Sq3(u), Dy(0, <<1>>, 34))
BetweenIs(u, v, q) ==
  LET s2 == Sq3(Cross3(u, v))  l2 == DMul(Sq3(u), Sq3(v))  c == DSign(Dot3(u, v))  a == Axis(q) IN
  Long3(u) /\ Long3(v) =>
  /\ Near(Norm4(q), One, Tolerance(700000))
  /\ IF c < 0 /\ DZero(s2) THEN
       \* a half turn around an axis perpendicular to u
       DLe(DAbs(q[1]), HalfTol) /\ DLe(DSq(Dot3(a, u)), DMul(DSq(HalfTol), Sq3(u)))
     ELSE IF c < 0 /\ DLt(s2, DMul(DSq(Sin1), l2)) THEN TRUE
     ELSE
       /\ DSign(q[1]) > 0 /\ Aligned(Rotated(q, u), v, Onto)
       /\ (c > 0 /\ DZero(s2) => DLe(Sq3(a), DSq(HalfTol)))
       /\ (DLt(DMul(DSq(HalfTol), l2), s2) =>
             \A b \in {u, v} : DLe(DSq(Dot3(a, b)), DMul(DSq(Onto), DMul(Sq3(a), Sq3(b)))))
---------------------------------------------------------------------------
\* a body, as the vectors its axes point to; turning it by t around coordinate axis k
Unit3(i) == [j \in 1..3 |-> IF i = j THEN Unit ELSE Fixed(Whole(0))]
Upright == TLCEval(<<Unit3(1), Unit3(2), Unit3(3)>>)
Turned(v, k, p) == LET i == (k % 3) + 1  j == (i % 3) + 1 IN        \* k, i, j is 1, 2, 3 in turn: i goes towards j
  TLCEval([n \in 1..3 |-> IF n = k THEN v[k] ELSE IF n = i THEN Fixed(DSub(DMul(p.c, v[i]), DMul(p.s, v[j]))) ELSE Fixed(DAdd(DMul(p.s, v[i]), DMul(p.c, v[j])))])
TurnBody(b, k, t) == LET p == Turn(Fixed(t)) IN TLCEval([n \in 1..3 |-> Turned(b[n], k, p)])
=============================================================================
