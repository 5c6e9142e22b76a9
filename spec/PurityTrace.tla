---------------------------- MODULE PurityTrace ----------------------------
(***************************************************************************)
(* Histories of threads that make calls: each event begins or ends one.    *)
(***************************************************************************)
EXTENDS Purity, Json, IOUtils
VARIABLES l
vars == <<calls, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ known = << >> /\ open = << >>
Step(e) == CASE e.k = "threads" -> open' = [t \in 1..e.n |-> Idle] /\ UNCHANGED known
             [] e.k = "begin" -> e.t \in DOMAIN open /\ Begin(e.t, e.c)
             [] e.k = "end" -> e.t \in DOMAIN open /\ Return(e.t, e.r)
             [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
