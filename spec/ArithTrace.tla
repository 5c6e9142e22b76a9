----------------------------- MODULE ArithTrace -----------------------------
(***************************************************************************)
(* Recorded histories of a binary32 register: each result is, bit for bit, *)
(* the one that Ieee defines.  Events are loads, binary operations with    *)
(* the register on the left or (dir = "r") on the right, comparisons,      *)
(* x * y + z (p is x * y rounded, for implementations that round twice),   *)
(* and operations on the components of vectors and quaternions, which are  *)
(* written as a load and an operation per component.                       *)
(***************************************************************************)
EXTENDS Ieee, TLC, Json, IOUtils
VARIABLES l, acc
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bit(b) == IF b THEN 1 ELSE 0
Step(e) ==
  CASE e.op = "load" -> TRUE
    [] e.op \in {"add", "sub", "mul", "div", "rem"} -> (IF e.dir = "r" THEN OpIs(e.op, e.y, acc, e.r) ELSE OpIs(e.op, acc, e.y, e.r))
    [] e.op = "neg" -> IF Nan(acc) THEN Nan(e.r) ELSE e.r = Minus(acc)
    [] e.op = "mul_add" -> FmaIs(acc, e.y, e.z, e.r) \/ (MulIs(acc, e.y, e.p) /\ AddIs(e.p, e.z, e.r))
    [] e.op = "cmp" -> LET c == Compare(acc, e.y) IN
                       /\ e.r = acc /\ e.c = c /\ e.eq = Bit(c = 0) /\ e.lt = Bit(c = -1) /\ e.le = Bit(c \in {-1, 0}) /\ e.gt = Bit(c = 1) /\ e.ge = Bit(c \in {0, 1})
Init == l = 1 /\ acc = [s |-> 0, m |-> 0]
Next == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ acc' = Trace[l].r /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, acc>>
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
