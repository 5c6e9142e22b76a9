----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Recorded calls on two numbers x and y: the results keep the rule.  The  *)
(* excess is compared in units of the last place (of the smaller result),  *)
(* or in 2^-20; for pairs of arguments: the same result for other signs,   *)
(* or in the other order.                                                  *)
(***************************************************************************)
EXTENDS Order, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Key(b) == IF b.s = 1 THEN -b.m ELSE b.m
\* in 2^-20, for magnitudes below 2^11
Signif(m) == IF Expo(m) = 0 THEN Man(m) ELSE 2^P + Man(m)
Fixed(b) == LET e == (IF Expo(b.m) = 0 THEN 1 ELSE Expo(b.m)) - Bias - P + 20
                v == IF e >= 0 THEN Signif(b.m) * 2^e ELSE IF e < -30 THEN 0 ELSE Signif(b.m) \div 2^(-e)
            IN IF b.s = 1 THEN -v ELSE v
Small(b) == b.m < Bits(1, -11) 
\* a number of 2^rel parts: at most 2^(P+1-rel) places
Places(r) == IF r.rel = 0 THEN 0 ELSE 2^(P + 1 - r.rel)
InUnits(r, b, c) == \* b is at most c, or nearly so
  \/ r.rel = 0 /\ r.abs = 0 /\ Key(b) <= Key(c)
  \/ r.rel > 0 /\ Key(b) <= Key(c) + Places(r)
  \/ r.abs > 0 /\ (Key(b) <= Key(c) \/ (Small(b) /\ Small(c) /\ Fixed(b) <= Fixed(c) + 2^(20 - r.abs) + 1))
Neg(b) == [b EXCEPT !.s = 1 - @]
Close(r, b, c) == InUnits(r, b, c) /\ InUnits(r, c, b)
Keeps(r, e) ==
  /\ e.a.m <= InfBits /\ e.b.m <= InfBits
  /\ CASE r.kind = "rise" -> Key(e.x) < Key(e.y) /\ InUnits(r, e.a, e.b)
       [] r.kind = "fall" -> Key(e.x) < Key(e.y) /\ InUnits(r, Neg(e.a), Neg(e.b))
       [] r.kind = "step" -> Key(e.y) = Key(e.x) + 1 /\ Close(r, e.a, e.b)
       [] r.kind = "odd" -> Key(e.y) = -Key(e.x) /\ ((e.a.m = 0 /\ e.b.m = 0) \/ Close(r, Neg(e.a), e.b))
       [] r.kind = "even" -> Key(e.y) = -Key(e.x) /\ Close(r, e.a, e.b)
Domain(r, x) == Key(x) >= r.from /\ Key(x) <= r.to
Named(e, r) == r.fn = e.fn /\ r.kind = e.kind /\ r.from = e.from /\ r.abs = e.abs /\ Domain(r, e.x) /\ (r.kind \in {"odd", "even"} \/ Domain(r, e.y))
\* of two arguments: hypot, in either order and with any signs; atan2, with the sign of the first
PiBits == [s |-> 0, m |-> 128 * 2^P + 4788187]
Pairs(e) == IF e.a.m > InfBits \/ e.b.m > InfBits THEN e.a.m > InfBits /\ e.b.m > InfBits
            ELSE IF e.kind = "same" THEN e.a = e.b
            ELSE LET c == [rel |-> 0, abs |-> 14] IN Close(c, Neg(e.a), e.b) \/ (Close(c, e.a, e.b) /\ Close(c, [e.a EXCEPT !.s = 0], PiBits))
Step(e) == IF e.kind \in {"same", "turned"} THEN Pairs(e) ELSE \E r \in Shapes : Named(e, r) /\ Keeps(r, e)
Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
