----------------------------- MODULE DefmtTrace -----------------------------
(***************************************************************************)
(* Recorded histories of logged values: an event with the value, and the   *)
(* tokens that its bytes consist of.                                       *)
(***************************************************************************)
EXTENDS Defmt, TLC, IOUtils, Json
LOCAL Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, value, r
None == [kind |-> "none"]
Init == i = 1 /\ value = None /\ r = Start
E == Trace[i]
Value ==
  /\ E.e = "value" /\ value = None
  /\ Len(E.comps) = Count(E.kind)
  /\ value' = [kind |-> E.kind, ty |-> E.ty, comps |-> E.comps] /\ r' = Start
Token ==
  /\ value # None /\ E.e # "value" /\ CanRead(r, E)
  /\ LET next == Read(r, E) IN
       /\ (next.done => ShowsValue(next.shown, value.kind, value.ty, value.comps))
       /\ r' = next
       /\ value' = IF next.done THEN None ELSE value
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Value \/ Token)
Spec == Init /\ [][Next]_<<i, value, r>>
\* every event is explained, and the last value complete
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  IF n = Len(Trace) THEN TRUE ELSE Print(<<"rejected event", n + 1, Trace[n + 1]>>, FALSE)
Complete == i > Len(Trace) => value = None
=============================================================================
