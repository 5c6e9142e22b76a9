------------------------------- MODULE QuatMC -------------------------------
(***************************************************************************)
(* A body is turned by quarter turns around the axes of space.  q is the   *)
(* product of the quaternions of the turns, without factors of 2; m the    *)
(* product of their matrices.  There are 48 states (24 orientations, each  *)
(* with two signs of q).                                                   *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
VARIABLES q, m
vars == <<q, m>>
Reduced(p) == IF \A i \in 1..4 : p[i] % 2 = 0 THEN [i \in 1..4 |-> p[i] \div 2] ELSE p
\* (1, e) and (1, -e) turn by plus and minus 90 degrees around e
TurnQ(axis, s) == [i \in 1..4 |-> IF i = 1 THEN 1 ELSE IF i = axis + 1 THEN s ELSE 0]
TurnM(axis, s) == Turns(axis, IF s = 1 THEN 1 ELSE 3)
Init == q = One /\ m = MOne
Turn(axis, s) == q' = Reduced(HMul(TurnQ(axis, s), q)) /\ m' = MMul(TurnM(axis, s), m)
Next == \E axis \in 1..3, s \in {-1, 1} : Turn(axis, s)
Spec == Init /\ [][Next]_vars

Count(p) == (IF p[1] = 0 THEN 0 ELSE 1) + (IF p[2] = 0 THEN 0 ELSE 1) + (IF p[3] = 0 THEN 0 ELSE 1) + (IF p[4] = 0 THEN 0 ELSE 1)
All == {p \in [1..4 -> {-1, 0, 1}] : Count(p) \in {1, 2, 4}}
Scaled(k, v) == [i \in 1..3 |-> k * v[i]]
Matrix(p) == [i \in 1..3 |-> [j \in 1..3 |-> Rotate(p, E3(j))[i] \div Norm(p)]]
Closed == q \in All
Same == \A i \in 1..3 : Rotate(q, E3(i)) = Scaled(Norm(q), Apply(m, E3(i)))
Undone == \A i \in 1..3 : Rotate(Conj(q), Rotate(q, E3(i))) = Scaled(Norm(q) * Norm(q), E3(i))
Compose == \A p \in All : \A i \in 1..3 : Rotate(HMul(p, q), E3(i)) = Rotate(p, Rotate(q, E3(i)))
MulNorm == \A p \in All : Norm(HMul(p, q)) = Norm(p) * Norm(q) /\ Conj(HMul(p, q)) = HMul(Conj(q), Conj(p)) /\ Dot(p, q) = HMul(p, Conj(q))[1]
\* Euler angles in quarter turns: first roll around x, then pitch around y, then yaw around z
Angle(s, c) == CASE s = 0 /\ c > 0 -> 0 [] s > 0 /\ c = 0 -> 1 [] s = 0 /\ c < 0 -> 2 [] s < 0 /\ c = 0 -> 3
Gimbal(p) == p[1] * p[3] - p[2] * p[4] # 0 /\ 2 * (p[1] * p[3] - p[2] * p[4]) \in {Norm(p), -Norm(p)}
EulerOf(p) == \* by the formulas, scaled with the norm
   << Angle(2 * (p[1] * p[2] + p[3] * p[4]), Norm(p) - 2 * (p[2] * p[2] + p[3] * p[3])),
      0,
      Angle(2 * (p[1] * p[4] + p[2] * p[3]), Norm(p) - 2 * (p[3] * p[3] + p[4] * p[4])) >>
Euler == IF Gimbal(q) THEN m[3][1] \in {-1, 1}
         ELSE LET e == EulerOf(q) IN m[3][1] = 0 /\ m = MMul(Turns(3, e[3]), MMul(Turns(2, e[2]), Turns(1, e[1])))
\* at a pitch of 90 degrees: some roll and yaw do it
Locked == Gimbal(q) => \E r \in 0..3 : m = MMul(Turns(3, r), Turns(2, IF 2 * (q[1] * q[3] - q[2] * q[4]) > 0 THEN 1 ELSE 3))
\* the smallest rotation of u to v: no other turns the same way with a larger w / |q| (compared by squares, as w >= 0)
Axes == {Scaled(s, E3(i)) : s \in {-1, 1}, i \in 1..3}
Half(u, v) == <<1 + Dot3(u, v)>> \o Cross3(u, v)
Smallest == \A u \in Axes : LET v == Apply(m, u)  h == Half(u, v) IN
              Dot3(u, v) # -1 => /\ Rotate(h, u) = Scaled(Norm(h), v)
                                 /\ h[1] * h[1] * Norm(q) >= q[1] * q[1] * Norm(h)
Rows == LET all == SetToSeq(All) IN
  [i \in 1..Len(all) |-> LET p == all[i] IN [q |-> p, norm |-> Norm(p), m |-> Matrix(p), euler |-> IF Gimbal(p) THEN <<>> ELSE EulerOf(p),
                                             pitch |-> IF Gimbal(p) THEN (2 * (p[1] * p[3] - p[2] * p[4])) \div Norm(p) ELSE 0]]
\* the bounds of the approximate functions, in 1/10000
Bounds == << [maglow |-> 9999, maghigh |-> 10610, unit |-> 350, inv |-> 1260, angle |-> 20, onto |-> 200, ontonorm |-> 700, pitch |-> 200, lock |-> 600, euler |-> 40, half |-> 100] >>
Emitted == TLCGet("stats").distinct = 48 /\ ndJsonSerialize(IOEnv.ROWS, Bounds \o Rows)
=============================================================================
