---------------------------- MODULE DecimalTrace ----------------------------
(***************************************************************************)
(* Recorded conversions between texts and F32: every text is read as       *)
(* Decimal says, and every number is written as it says, also with the     *)
(* options of the formatter (precision, sign, width, zeros, fill and        *)
(* alignment).  Where an                                                   *)
(* event has c = 1, the text is the one written before, or the number is   *)
(* the one read before: the register of the machine.                       *)
(***************************************************************************)
EXTENDS Decimal, TLC, Json, IOUtils
VARIABLES l, text, num
vars == <<l, text, num>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
NoNum == [s |-> 0, m |-> InfBits + 1]
Step(e) ==
  IF e.fn = "parse" THEN /\ (e.c = 1 => e.t = text)
                         /\ ParseIs(e.t, e.r)
                         /\ (e.c = 1 /\ e.shortest = 1 => e.r.ok = 1 /\ (e.r.m = num.m \/ (IsNaN(num.m) /\ IsNaN(e.r.m))) /\ (IsNaN(num.m) \/ e.r.s = num.s))
  ELSE FormatIs(e.t, e.x, e.form, e.p, e.plus = 1, e.w, e.zeros = 1, e.fill, e.align)
Init == l = 1 /\ text = <<>> /\ num = NoNum
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l]) = TRUE
        /\ text' = Trace[l].t
        /\ num' = (IF Trace[l].fn = "parse" THEN (IF Trace[l].r.ok = 1 THEN [s |-> Trace[l].r.s, m |-> Trace[l].r.m] ELSE NoNum) ELSE Trace[l].x)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
