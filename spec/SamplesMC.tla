------------------------------ MODULE SamplesMC ------------------------------
(***************************************************************************)
(* Statistics computed with rounding after every operation, as a machine   *)
(* that takes samples of a small format one after the other, in any order: *)
(* all of it stays within the bounds of Samples, and a sample that is      *)
(* certainly kept is not one that is certainly dropped.                    *)
(***************************************************************************)
EXTENDS Samples, FiniteSets
CONSTANT Longest, Step
VARIABLES xs
Finites == [s : {0, 1}, m : 0..(InfBits - 1)]
Numbers == [s : {0, 1}, m : 0..InfBits] \cup {[s |-> 0, m |-> InfBits + 1]}
The(Ok(_)) == CHOOSE r \in Numbers : Ok(r)
\* tables of the operations
AddT == TLCEval([p \in Finites \X Finites |-> LET Good(r) == AddIs(p[1], p[2], r) IN The(Good)])
SqT == TLCEval([x \in Finites |-> LET Good(r) == MulIs(x, x, r) IN The(Good)])
\* whole numbers of the format
Count(k) == LET Good(r) == Finite(r) /\ r.s = 0 /\ DEq(Num(r), Whole(k)) IN The(Good)
DivT == TLCEval([p \in Finites \X (1..Longest) |-> LET Good(r) == DivIs(p[1], Count(p[2]), r) IN The(Good)])
Failed == [s |-> 0, m |-> InfBits]         \* once a sum overflows
A(x, y) == IF Finite(x) /\ Finite(y) THEN AddT[<<x, y>>] ELSE Failed
S(x) == IF Finite(x) THEN SqT[x] ELSE Failed
D(x, k) == IF Finite(x) THEN DivT[<<x, k>>] ELSE Failed
Nil == [s |-> 0, m |-> 0]
RECURSIVE Summed(_, _)
Summed(f, n) == IF n = 0 THEN Nil ELSE A(Summed(f, n - 1), f[n])
Mean == TLCEval(D(Summed(xs, Len(xs)), Len(xs)))
Deviations == TLCEval([i \in 1..Len(xs) |-> A(xs[i], Minus(Mean))])
Variance == D(Summed([i \in 1..Len(xs) |-> S(Deviations[i])], Len(xs)), Len(xs) - 1)
Init == xs = <<>>
Sampled == {x \in Finites : x.m % Step = (IF Len(xs) = 0 THEN 0 ELSE xs[1].m) % Step \/ x.m <= 2}
Next == Len(xs) < Longest /\ \E x \in (IF Len(xs) < 2 THEN Finites ELSE Sampled) : xs' = Append(xs, x)
Spec == Init /\ [][Next]_xs
Bounded == Len(xs) >= 1 =>
  LET t == Summary(xs) IN
  /\ (Finite(Mean) => MeanIs(t, Mean))
  /\ Len(xs) >= 2 /\ Finite(Mean) /\ Finite(Variance) => VarianceIs(t, Variance)
Separate == Len(xs) >= 2 =>
  LET t == Summary(xs) IN \A z \in {x \in Finites : x.m % Step = 0} \cup {Failed} : \A i \in 1..t.n : ~(Kept(t, i, z) /\ Dropped(t, i, z))
Covered == TLCGet("stats").distinct > 1000
=============================================================================
