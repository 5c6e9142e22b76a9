------------------------------- MODULE Euclid -------------------------------
(***************************************************************************)
(* Euclidean division of integers: the machine takes the divisor away (or  *)
(* adds it) until the remainder is in 0..|y|-1.  TLC runs it for every     *)
(* dividend and divisor up to M, checks it against the definition and the  *)
(* formula by truncated division, and writes the results; they are         *)
(* replayed on the real code as they are and scaled by powers of two       *)
(* (which scales the remainder, and keeps the quotient).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT M
VARIABLES x, y, q, r
vars == <<x, y, q, r>>
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0

Init == x \in -M..M /\ y \in (-M..M) \ {0} /\ q = 0 /\ r = x
Down == r >= Abs(y) /\ r' = r - Abs(y) /\ q' = q + Sgn(y) /\ UNCHANGED <<x, y>>
Up   == r < 0 /\ r' = r + Abs(y) /\ q' = q - Sgn(y) /\ UNCHANGED <<x, y>>
Next == Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == ~(ENABLED Next)
Invariant == x = q * y + r
InRange == Final <=> (0 <= r /\ r < Abs(y))
Terminates == <>Final
\* the definition (unique), and truncated division with its correction
DefQ(u, v) == CHOOSE z \in -(Abs(u) + 1)..(Abs(u) + 1) : 0 <= u - z * v /\ u - z * v < Abs(v)
TruncQ(u, v) == Sgn(u) * Sgn(v) * (Abs(u) \div Abs(v))
FormulaQ(u, v) == LET t == TruncQ(u, v) IN IF u - t * v < 0 THEN (IF v > 0 THEN t - 1 ELSE t + 1) ELSE t
Quotient == Final => q = DefQ(x, y) /\ q = FormulaQ(x, y)
Remainder == Final => r = x % Abs(y)
\* scaling, and signs of the divisor
Scales == Final => FormulaQ(2 * x, 2 * y) = q /\ FormulaQ(x, -y) = -q
---------------------------------------------------------------------------
RowsFor == [j \in 1..((2 * M + 1) * 2 * M) |->
  LET u == ((j - 1) \div (2 * M)) - M
      w == ((j - 1) % (2 * M)) - M
      v == IF w >= 0 THEN w + 1 ELSE w
  IN [x |-> u, y |-> v, q |-> FormulaQ(u, v), r |-> u % Abs(v)]]
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, RowsFor)
=============================================================================
