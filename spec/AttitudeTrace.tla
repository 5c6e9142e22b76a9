---------------------------- MODULE AttitudeTrace ----------------------------
(***************************************************************************)
(* Recorded rotations: single calls, and a body that is turned again and   *)
(* again by axis_angle, products and normalize: its axes, as rotate gives  *)
(* them, may be off by a further 0.01 after each turn.                     *)
(***************************************************************************)
EXTENDS Attitude, Json, IOUtils
VARIABLES l, body, turns
vars == <<l, body, turns>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the body is where the model has it
Tracks(b, axes, n) == \A i \in 1..3 : Aligned(Nums(axes[i]), b[i], Tolerance(100000 * n))
Fact(e) ==
  CASE e.op = "axis" -> AllFinite(e.q) /\ AxisAngleIs(Nums(e.v), Num(e.t), Nums(e.q))
    [] e.op = "euler" -> AllFinite(e.a) /\ EulerIs(Nums(e.q), Num(e.a[1]), Num(e.a[2]), Num(e.a[3]))
    [] e.op = "between" -> AllFinite(e.q) /\ BetweenIs(Nums(e.u), Nums(e.v), Nums(e.q))
Step(e) ==
  CASE e.op = "upright" -> body' = Upright /\ turns' = 0
    [] e.op = "turn" -> /\ body' = TurnBody(body, e.k, Num(e.t)) /\ turns' = turns + 1
                        /\ ((\A i \in 1..3 : AllFinite(e.axes[i])) /\ Tracks(body', e.axes, turns')) = TRUE
    [] OTHER -> Fact(e) = TRUE /\ UNCHANGED <<body, turns>>
Init == l = 1 /\ body = Upright /\ turns = 0
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
