----------------------------- MODULE ExactTrace -----------------------------
(***************************************************************************)
(* Recorded calls of algebraic functions, on numbers of all signs and      *)
(* exponents: the results are related to the arguments as Exact says.      *)
(* Calls are chained where c = 1: their argument is the result before.     *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, IOUtils
VARIABLES l, acc
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ acc = [s |-> 0, m |-> 0]
Next == /\ l <= Len(Trace)
        /\ (Trace[l].c = 1 => Trace[l].x = acc)
        /\ Call(Trace[l]) = TRUE
        /\ acc' = Trace[l].r /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, acc>>
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
