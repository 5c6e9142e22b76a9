----------------------------- MODULE LengthsMC -----------------------------
(* All pairs of vectors with components in -R..R: the bounds are consistent, and emitted for the replay *)
EXTENDS Lengths, TLC, Json, IOUtils
CONSTANT R
VARIABLES u, v
vars == <<u, v>>
Vecs == UNION {[1..n -> -R..R] : n \in 2..3}
Init == \E n \in 2..3 : u = [i \in 1..n |-> 0] /\ v = u
Move(w, i, s) == [w EXCEPT ![i] = @ + s]
MoveU == \E i \in DOMAIN u, s \in {-1, 1} : u[i] + s \in -R..R /\ u' = Move(u, i, s) /\ v' = v
MoveV == \E i \in DOMAIN u, s \in {-1, 1} : v[i] + s \in -R..R /\ v' = Move(v, i, s) /\ u' = u
Next == MoveU \/ MoveV
Spec == Init /\ [][Next]_vars
RECURSIVE Isqrt(_, _)
Isqrt(n, k) == IF (k + 1) * (k + 1) > n THEN k ELSE Isqrt(n, k + 1)
D == Dot(u, u)
\* the true root is allowed, 7 percent more or less is not
Sound == LET m == Isqrt(256 * D, 0) IN Length(D, m) /\ (m > 64 => ~Length(D, m + (7 * m) \div 100 + 2) /\ ~Length(D, m - 2 - m \div 500))
Symmetric == DistSq(u, v) = DistSq(v, u) /\ (DistSq(u, v) = 0 <=> u = v)
\* |u - v| <= |u| + |v|, squared twice
Triangle == LET a == Dot(u, u)  b == Dot(v, v)  d == DistSq(u, v) IN d <= a + b \/ (d - a - b) * (d - a - b) <= 4 * a * b
Cauchy == Dot(u, v) * Dot(u, v) <= Dot(u, u) * Dot(v, v)
Rows == << [fn |-> "length", low |-> <<99999, 100000>>, high |-> <<1061, 1000>>, unitlow |-> <<94, 100>>, unithigh |-> <<1001, 1000>>, minexp |-> -60, maxexp |-> 60] >>
Emitted == TLCGet("stats").distinct > 1000 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
