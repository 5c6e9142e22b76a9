---------------------------- MODULE ValuesTrace ----------------------------
(***************************************************************************)
(* Recorded histories of registers of values: what is made, copied, and    *)
(* changed, and what comparisons, reads and Debug texts say.               *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils
VARIABLES l
vars == <<kind, comp, regs, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ kind = "F32" /\ comp = "float" /\ regs = [r \in Registers |-> <<Zero>>]
B(b) == IF b THEN 1 ELSE 0
Step(e) ==
  CASE e.op = "fresh" -> Fresh(e.kind, e.comp)
    [] e.op = "put" -> Put(e.r, e.v)
    [] e.op = "default" -> Put(e.r, Default(kind, comp))
    [] e.op = "copy" -> Copy(e.r, e.q)
    [] e.op = "set" -> Set(e.r, e.i, e.c)
    [] e.op = "read" -> AllAlike(regs[e.r], e.v, comp) /\ Look
    [] e.op = "eq" -> e.eq = B(Equal(regs[e.r], regs[e.q], comp)) /\ e.ne = 1 - e.eq /\ Look
    [] e.op = "debug" -> Len(e.texts) = Axes(kind) /\ e.text = Debug(kind, e.texts) /\ Look
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
