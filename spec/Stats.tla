------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* The statistics of a sequence of integers, exactly, in fractions; and    *)
(* which samples trimming at the threshold tn / td keeps (Inside), or      *)
(* drops (Outside); what it does with those between is up to the code,     *)
(* whose standard deviation is an approximation from above.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _), SumSqTo(_, _)
SumTo(xs, n) == IF n = 0 THEN 0 ELSE SumTo(xs, n - 1) + xs[n]
SumSqTo(xs, n) == IF n = 0 THEN 0 ELSE SumSqTo(xs, n - 1) + xs[n] * xs[n]
S1(xs) == SumTo(xs, Len(xs))
S2(xs) == SumSqTo(xs, Len(xs))
\* mean: S1 / n;  sum of squared deviations: Spread / n;  variance: Spread / (n (n - 1))
Spread(xs) == Len(xs) * S2(xs) - S1(xs) * S1(xs)
Dev(xs, x) == Len(xs) * x - S1(xs)                     \* n (x - mean)
Ratio(xs, x, td) == td * td * Dev(xs, x) * Dev(xs, x) * (Len(xs) - 1)
Inside(xs, x, tn, td) == tn > 0 /\ (Spread(xs) = 0 \/ Ratio(xs, x, td) < tn * tn * Len(xs) * Spread(xs))
Outside(xs, x, tn, td) == tn <= 0 \/ 100 * Ratio(xs, x, td) > 113 * tn * tn * Len(xs) * Spread(xs)
=============================================================================
