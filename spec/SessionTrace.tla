---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Histories of the scalar API: events [op, form, v, out, ...] in quarters *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
VARIABLES l, acc
vars == <<l, acc>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Left == {"FF", "Ff", "fF", "FF=", "Ff=", "fF="}
Right == {"rFF", "rFf", "rfF", "rFF=", "rFf=", "rfF="}
Step(e) ==
  CASE e.op = "set" -> TRUE
    [] e.op \in BinaryOps -> /\ e.form \in Left \cup Right
                             /\ IF e.form \in Left THEN Binary(e.op, acc, e.v, e.out) ELSE Binary(e.op, e.v, acc, e.out)
    [] e.op \in UnaryOps -> Unary(e.op, acc, e.out)
    [] e.op = "sum" -> e.out = acc + SumOf(e.xs)
    [] e.op = "product" -> ProdIs(<<acc>> \o e.xs, e.out)
    [] e.op = "mul_add" -> U * (e.out - e.w) = acc * e.v
    [] e.op = "powi" -> e.out = Power(acc, e.n)
    [] e.op = "cmp" -> e.out = acc /\ e.res = Order(acc, e.v) /\ e.eq = (IF acc = e.v THEN 1 ELSE 0)
    [] e.op = "conv" -> e.out = U * e.n
Init == l = 1 /\ acc = 0
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ acc' = Trace[l].out /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
