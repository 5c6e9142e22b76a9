------------------------------ MODULE Lengths ------------------------------
(***************************************************************************)
(* Approximate lengths of vectors of integers.  Length(D, m): m / 16 is    *)
(* the approximation (rounded down to sixteenths) of the root of D that    *)
(* the bounds allow: not below it by more than 0.001 percent, at most 6.1  *)
(* percent above it.  The machine holds two vectors, and moves them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
MaxD == 4096
Length(D, m) == /\ D \in 0..MaxD
                /\ (m + 1) * (m + 1) + D \div 100 + 1 >= 256 * D
                /\ m * m * 500 <= 256 * 563 * D + 500
Dot(u, v) == IF Len(u) = 2 THEN u[1] * v[1] + u[2] * v[2] ELSE u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
DistSq(u, v) == Dot(Sub(u, v), Sub(u, v))
=============================================================================
