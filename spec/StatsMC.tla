------------------------------ MODULE StatsMC ------------------------------
(***************************************************************************)
(* Samples are read one by one (pass 1: their number and sum), then read   *)
(* again (pass 2: the squares of n times the deviations), then trimmed     *)
(* (pass 3), as with iterators.                                            *)
(***************************************************************************)
EXTENDS Stats, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS MaxLen, R
Vals == -R..R
Ts == {-1, 0, 1, 2, 3, 4, 6}        \* thresholds in halves
VARIABLES pass, xs, n, sum, i, dev, t, out
vars == <<pass, xs, n, sum, i, dev, t, out>>
Init == pass = 1 /\ xs = <<>> /\ n = 0 /\ sum = 0 /\ i = 0 /\ dev = 0 /\ t = 0 /\ out = <<>>
Read == /\ pass = 1 /\ Len(xs) < MaxLen
        /\ \E x \in Vals : xs' = Append(xs, x) /\ n' = n + 1 /\ sum' = sum + x
        /\ UNCHANGED <<pass, i, dev, t, out>>
Again == pass = 1 /\ n > 0 /\ pass' = 2 /\ i' = 0 /\ UNCHANGED <<xs, n, sum, dev, t, out>>
Square == /\ pass = 2 /\ i < n
          /\ i' = i + 1 /\ dev' = dev + (n * xs[i + 1] - sum) * (n * xs[i + 1] - sum)
          /\ UNCHANGED <<pass, xs, n, sum, t, out>>
Begin == pass = 2 /\ i = n /\ n > 1 /\ pass' = 3 /\ i' = 0 /\ t' \in Ts /\ UNCHANGED <<xs, n, sum, dev, out>>
Keep == pass = 3 /\ i < n /\ ~Outside(xs, xs[i + 1], t, 2) /\ i' = i + 1 /\ out' = Append(out, i + 1) /\ UNCHANGED <<pass, xs, n, sum, dev, t>>
Drop == pass = 3 /\ i < n /\ ~Inside(xs, xs[i + 1], t, 2) /\ i' = i + 1 /\ UNCHANGED <<pass, xs, n, sum, dev, t, out>>
Next == Read \/ Again \/ Square \/ Begin \/ Keep \/ Drop
Spec == Init /\ [][Next]_vars

Sums == n = Len(xs) /\ sum = S1(xs)
TwoPass == pass = 2 /\ i = n => dev = n * Spread(xs)
NoClash == pass = 3 => \A j \in 1..n : ~(Inside(xs, xs[j], t, 2) /\ Outside(xs, xs[j], t, 2))
Trimmed == pass = 3 /\ i = n =>
  /\ \A j \in 1..(Len(out) - 1) : out[j] < out[j + 1]                                         \* in order, each once
  /\ \A j \in 1..n : (Inside(xs, xs[j], t, 2) => \E k \in 1..Len(out) : out[k] = j)
                     /\ (Outside(xs, xs[j], t, 2) => ~\E k \in 1..Len(out) : out[k] = j)
  /\ (t >= 2 => out # <<>>)                                                                   \* one deviation always keeps some sample
  /\ (t > 0 /\ t * t * n > 4 * (n - 1) * (n - 1) => Len(out) = n)                             \* Samuelson: none is further than (n - 1) / sqrt(n)
Wider == pass = 3 => \A j \in 1..n, u \in Ts : u > t => (Inside(xs, xs[j], t, 2) => Inside(xs, xs[j], u, 2)) /\ (Outside(xs, xs[j], u, 2) => Outside(xs, xs[j], t, 2))
Shift(k) == [j \in 1..n |-> xs[j] + k]
Times(k) == [j \in 1..n |-> xs[j] * k]
Swap(j) == [xs EXCEPT ![j] = xs[j + 1], ![j + 1] = xs[j]]
RECURSIVE Pairs(_, _)
Pairs(j, k) == IF j = 0 THEN 0 ELSE IF k = 0 THEN Pairs(j - 1, j - 2) ELSE (xs[j] - xs[k]) * (xs[j] - xs[k]) + Pairs(j, k - 1)
Laws == pass = 2 /\ i = 0 =>
  /\ Spread(xs) >= 0 /\ (Spread(xs) = 0 <=> \A j \in 1..n : xs[j] = xs[1])
  /\ Spread(xs) = Pairs(n, n - 1)
  /\ S1(Shift(3)) = S1(xs) + 3 * n /\ Spread(Shift(3)) = Spread(xs)
  /\ S1(Times(-2)) = -2 * S1(xs) /\ Spread(Times(-2)) = 4 * Spread(xs)
  /\ \A j \in 1..(n - 1) : S1(Swap(j)) = S1(xs) /\ Spread(Swap(j)) = Spread(xs)
  /\ \A j \in 1..(n - 1) : \A u \in Ts : Inside(Shift(3), xs[j] + 3, u, 2) = Inside(xs, xs[j], u, 2) /\ Outside(Times(-2), -2 * xs[j], u, 2) = Outside(xs, xs[j], u, 2)

\* rows: 1 keep, 0 drop, 2 either
Verdict(s, x, u) == IF Inside(s, x, u, 2) THEN 1 ELSE IF Outside(s, x, u, 2) THEN 0 ELSE 2
TList == <<-1, 0, 1, 2, 3, 4, 6>>
Row(s) == [xs |-> s, sum |-> S1(s), spread |-> Spread(s), trims |-> IF Len(s) < 2 THEN <<>> ELSE [u \in 1..Len(TList) |-> <<TList[u]>> \o [j \in 1..Len(s) |-> Verdict(s, s[j], TList[u])]]]
Seqs == UNION ({[1..k -> -3..3] : k \in 1..4} \cup {[1..k -> {0, 1, 9}] : k \in 5..6})
Rows == LET all == SetToSeq(Seqs) IN [k \in 1..Len(all) |-> Row(all[k])]
Emitted == TLCGet("stats").distinct > 1000 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
