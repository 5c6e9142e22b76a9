---------------------------- MODULE EuclidTrace ----------------------------
(***************************************************************************)
(* A recorded history of divisions of integers by the real code: each      *)
(* event must be a step that the definition in Euclid allows.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Abs(v) == IF v < 0 THEN -v ELSE v
Divide(e) == /\ e.y # 0 /\ 0 <= e.r /\ e.r < Abs(e.y)
             /\ Abs(e.q) <= Abs(e.x) \div Abs(e.y) + 1
             /\ e.x = e.q * e.y + e.r
Init == l = 1
Next == l <= Len(Trace) /\ Divide(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
