----------------------------- MODULE CurvesNodes -----------------------------
(***************************************************************************)
(* The trajectory of Elem (28 places, computed step by step) against       *)
(* Curves, node by node: within 2^-23 of the cosine, sine and power of     *)
(* two, where Curves has an error below 2^-50.  The nodes of Curves, with  *)
(* 48 places, are what the harness follows for all 2^32 numbers.           *)
(***************************************************************************)
EXTENDS Curves, Json, IOUtils
VARIABLES i, nodes
vars == <<i, nodes>>
Rows == ndJsonDeserialize(IOEnv.TRACE)
Steps == Rows[1].n
Int28(n) == Fixed(Dy(IF n < 0 THEN 1 ELSE 0, Nat2Big(IF n < 0 THEN -n ELSE n), -28))
Close(n, t) == DLe(DAbs(DSub(Int28(n), t)), Dy(0, <<1>>, -23))
Frac(a, k) == DivBy(DTimes(a, k), Steps)
\* the places 1 to 24 (and the integer part), and 25 to 48, of a nonnegative number
Pair(a) == LET n == Drop(DAbs(Fixed(a)).n, (W - 48) \div LB) IN <<Value(Drop(n, 24 \div LB)), Value(SubSeq(n, 1, MinN(Len(n), 24 \div LB)))>>
Here(k) == LET p == Turn(Frac(Quarter, k)) IN TLCEval([c |-> p.c, s |-> p.s, g |-> Exp(Frac(Ln2, k))])
Header == [n |-> Steps, halfpi |-> Pair(Quarter), ln2 |-> Pair(Ln2)]
\* each state has one node; the rows are written one by one
Row(k, h) == [i |-> k, cos |-> Pair(h.c), sin |-> Pair(h.s), exp2 |-> Pair(h.g)]
Init == i = 0 /\ nodes = <<Header>>
Next == /\ i <= Steps
        /\ LET h == Here(i)  r == Rows[i + 2] IN
           /\ r.i = i /\ Close(r.cos, h.c) /\ Close(r.sin, h.s) /\ Close(r.exp2, h.g)
           /\ nodes' = Append(nodes, Row(i, h))
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Written == i = Steps + 1 => ndJsonSerialize(IOEnv.ROWS, nodes)
Emitted == TLCGet("stats").diameter = Steps + 2 /\ Len(Rows) = Steps + 2
=============================================================================
