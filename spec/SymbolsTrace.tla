---------------------------- MODULE SymbolsTrace ----------------------------
(***************************************************************************)
(* Histories of vectors whose components are symbols: events for each      *)
(* operation on components that the code makes, and for the result of each *)
(* call (the numbers of its components).  A comparison of components has   *)
(* any outcome (chosen by the driver: all are tried), and must not make a  *)
(* difference.                                                             *)
(***************************************************************************)
EXTENDS Symbols, Json, IOUtils
VARIABLES l
vars == <<regs, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ sym = << >> /\ quo = << >> /\ u = << >> /\ v = << >> /\ s = P!Zero
Known(e) == e.a < Len(sym) /\ e.b < Len(sym)
Step(e) == CASE e.k = "fresh" -> Fresh(e.d)
             [] e.k = "op" -> IF Known(e) THEN Combine(e.o, Value(e.a), Value(e.b)) ELSE FALSE
             [] e.k = "swap" -> Swap
             [] e.k = "call" -> IF \A i \in DOMAIN e.r : e.r[i] < Len(sym) THEN Call(e.f, e.c, TLCEval([i \in DOMAIN e.r |-> Value(e.r[i])])) ELSE FALSE
             [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
