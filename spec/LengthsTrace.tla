---------------------------- MODULE LengthsTrace ----------------------------
(* Lengths and distances that the code gave for vectors of small integers, in sixteenths, rounded down *)
EXTENDS Lengths, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) == CASE e.op = "magnitude" -> Length(Dot(e.u, e.u), e.m)
             [] e.op = "distance" -> Length(DistSq(e.u, e.v), e.m) /\ e.back = e.m
Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
