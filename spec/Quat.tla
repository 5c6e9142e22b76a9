-------------------------------- MODULE Quat --------------------------------
(***************************************************************************)
(* Quaternions <<w, x, y, z>> of integers, as sums over the table of the   *)
(* basis; and quarter turns of space, as matrices (sequences of rows).     *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* Basis[s][t] = <<sign, index>> of the product of units s and t
Basis == << << <<1,1>>, <<1,2>>, <<1,3>>, <<1,4>> >>,
            << <<1,2>>, <<-1,1>>, <<1,4>>, <<-1,3>> >>,
            << <<1,3>>, <<-1,4>>, <<-1,1>>, <<1,2>> >>,
            << <<1,4>>, <<1,3>>, <<-1,2>>, <<-1,1>> >> >>
Term(p, q, s, t, i) == IF Basis[s][t][2] = i THEN Basis[s][t][1] * p[s] * q[t] ELSE 0
HMul(p, q) == [i \in 1..4 |->
   Term(p,q,1,1,i) + Term(p,q,1,2,i) + Term(p,q,1,3,i) + Term(p,q,1,4,i) + Term(p,q,2,1,i) + Term(p,q,2,2,i) + Term(p,q,2,3,i) + Term(p,q,2,4,i)
 + Term(p,q,3,1,i) + Term(p,q,3,2,i) + Term(p,q,3,3,i) + Term(p,q,3,4,i) + Term(p,q,4,1,i) + Term(p,q,4,2,i) + Term(p,q,4,3,i) + Term(p,q,4,4,i)]
HAdd(p, q) == [i \in 1..4 |-> p[i] + q[i]]
HSub(p, q) == [i \in 1..4 |-> p[i] - q[i]]
HScale(k, q) == [i \in 1..4 |-> k * q[i]]
Conj(q) == <<q[1], -q[2], -q[3], -q[4]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3] + p[4] * q[4]
Norm(q) == Dot(q, q)
One == <<1, 0, 0, 0>>
Pure(v) == <<0, v[1], v[2], v[3]>>
Rotate(q, v) == LET r == HMul(HMul(q, Pure(v)), Conj(q)) IN <<r[2], r[3], r[4]>>

Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross3(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
E3(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]
Apply(m, v) == [i \in 1..3 |-> Dot3(m[i], v)]
MMul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
MOne == <<E3(1), E3(2), E3(3)>>
\* counterclockwise quarter turns around the axes: turning around z takes x to y, and y to -x
Quarter(axis) == CASE axis = 1 -> << <<1,0,0>>, <<0,0,-1>>, <<0,1,0>> >>
                   [] axis = 2 -> << <<0,0,1>>, <<0,1,0>>, <<-1,0,0>> >>
                   [] axis = 3 -> << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>
RECURSIVE Turns(_, _)
Turns(axis, k) == IF k = 0 THEN MOne ELSE MMul(Quarter(axis), Turns(axis, k - 1))
=============================================================================
