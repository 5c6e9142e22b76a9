------------------------------ MODULE OrderMC ------------------------------
(***************************************************************************)
(* How all numbers are tried at once: the numbers are cut into chunks, and *)
(* workers take chunks in any order.  Of each chunk they keep whether it   *)
(* is in order by itself, and its highest and lowest value.  The merged    *)
(* verdict is the one of all pairs of numbers, for every function on a     *)
(* small domain, with every excess.  What holds of the numbers from 0 on   *)
(* holds of all, for odd and even functions.  The shapes of Order are      *)
(* written to ROWS.                                                        *)
(***************************************************************************)
EXTENDS Order, FiniteSets, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS Chunks, Size, Values
VARIABLES f, tol, done, sum
vars == <<f, tol, done, sum>>
Keys == 0..(Chunks * Size - 1)
Vals == 0..Values
\* excess that a value excuses: none, a constant, a part of it
Excess(v) == CASE tol = "none" -> 0 [] tol = "abs" -> 1 [] OTHER -> v \div 2
Hi(S) == CHOOSE v \in S : \A w \in S : w <= v
Lo(S) == CHOOSE v \in S : \A w \in S : w >= v
Cut(c) == (c * Size)..(c * Size + Size - 1)
AbsD(a, b) == IF a < b THEN b - a ELSE a - b
\* a worker walks through its chunk with the highest value so far
RECURSIVE Walk(_, _, _)
Walk(k, last, s) == IF k > last THEN s ELSE
  Walk(k + 1, last, [ok |-> s.ok /\ f[k] + Excess(f[k]) >= s.max,
                     max |-> IF f[k] > s.max THEN f[k] ELSE s.max,
                     low |-> IF f[k] < s.low THEN f[k] ELSE s.low,
                     step |-> s.step /\ (k + 1 \in Keys => AbsD(f[k], f[k + 1]) <= Excess(f[k + 1]))])
Summary(c) == Walk(c * Size, c * Size + Size - 1, [ok |-> TRUE, max |-> 0, low |-> Values + 1, step |-> TRUE])
Init == f \in [Keys -> Vals] /\ tol \in {"none", "abs", "rel"} /\ done = {} /\ sum = <<>>
Take(c) == c \notin done /\ done' = done \cup {c} /\ sum' = TLCEval((c :> Summary(c)) @@ sum) /\ UNCHANGED <<f, tol>>
Next == \E c \in 0..(Chunks - 1) : Take(c)
Spec == Init /\ [][Next]_vars
TypeOK == DOMAIN sum = done
\* what is known of the chunks that are done; with all of them, the verdict
InOrder(S) == /\ \A c \in S : sum[c].ok
              /\ \A c, d \in S : c < d => sum[c].max <= sum[d].low + Excess(sum[d].low)
PairsOf(S) == \A j, k \in UNION {Cut(c) : c \in S} : j < k => f[j] <= f[k] + Excess(f[k])
Verdict == InOrder(done) <=> PairsOf(done)
StepVerdict == Cardinality(done) = Chunks =>
  ((\A c \in done : sum[c].step) <=> \A k \in Keys : k + 1 \in Keys => AbsD(f[k], f[k + 1]) <= Excess(f[k + 1]))
\* without excess, neighbours in order are enough
Neighbours == tol = "none" /\ Cardinality(done) = Chunks =>
  (InOrder(done) <=> \A k \in Keys : k + 1 \in Keys => f[k] <= f[k + 1])
\* f is one of the numbers from 0 on; all numbers, with f(-k) = -f(k), or f(k), and the excess of a magnitude
Mag(v) == IF v < 0 THEN -v ELSE v
All == {k \in -(Chunks * Size - 1)..(Chunks * Size - 1) : k # 0 \/ f[0] = 0}
Odd(k) == IF k < 0 THEN -f[-k] ELSE f[k]
Even(k) == IF k < 0 THEN f[-k] ELSE f[k]
Mirrored == Cardinality(done) = Chunks =>
  /\ InOrder(done) => \A j, k \in All : j < k => Odd(j) <= Odd(k) + (IF k < 0 THEN Excess(Mag(Odd(j))) ELSE Excess(Mag(Odd(k))))
  /\ (\A c \in done : sum[c].step) => \A k \in All : k + 1 \in All /\ k + 1 <= 0 => AbsD(Even(k), Even(k + 1)) <= Excess(Even(k))
Rows == WellFormed /\ TLCGet("stats").distinct > 1000 /\ ndJsonSerialize(IOEnv.ROWS, SetToSeq(Shapes))
=============================================================================
