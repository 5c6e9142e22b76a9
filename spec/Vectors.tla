------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* A vector register: components (2 or 3) of a component type, which only  *)
(* holds numbers in its range.  An operation is enabled if all components  *)
(* of its result, and what it computes on the way, are in the range.       *)
(* VectorsMC explores it with a small type; VectorsTrace validates         *)
(* histories of the code.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Abs(v) == IF v < 0 THEN -v ELSE v
\* division rounds to zero
Quot(n, d) == IF (n < 0) = (d < 0) THEN Abs(n) \div Abs(d) ELSE -(Abs(n) \div Abs(d))
VAdd(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
VSub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
VMul(u, k) == [i \in DOMAIN u |-> u[i] * k]
VDiv(u, k) == [i \in DOMAIN u |-> Quot(u[i], k)]
VNull(n) == [i \in 1..n |-> 0]
RECURSIVE SumOf(_, _)
SumOf(z, vs) == IF vs = <<>> THEN z ELSE SumOf(VAdd(z, Head(vs)), Tail(vs))
Dot(u, v) == IF Len(u) = 2 THEN u[1] * v[1] + u[2] * v[2] ELSE u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Perp(u, v) == u[1] * v[2] - u[2] * v[1]
Cross(u, v) == IF Len(u) = 2 THEN <<0, 0, Perp(u, v)>>
               ELSE << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Lift(u) == <<u[1], u[2], 0>>
In(u, lo, hi) == \A i \in DOMAIN u : lo <= u[i] /\ u[i] <= hi
=============================================================================
