---------------------------- MODULE VectorsTrace ----------------------------
(***************************************************************************)
(* Histories of vectors: events [ty, op, form, ...] that take the register *)
(* to out.  The histories of all component types follow each other.        *)
(***************************************************************************)
EXTENDS Vectors, TLC, Json, IOUtils
VARIABLES l, ty, acc
vars == <<l, ty, acc>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Big == 2^30
Lo(t) == CASE t = "i8" -> -128 [] t = "i16" -> -32768 [] t \in {"u8", "u16", "u32"} -> 0 [] OTHER -> -Big
Hi(t) == CASE t = "i8" -> 127 [] t = "i16" -> 32767 [] t = "u8" -> 255 [] t = "u16" -> 65535 [] OTHER -> Big
Small == {"i8", "i16", "u8", "u16"}
Step(e) ==
  CASE e.op = "new" -> In(e.out, Lo(e.ty), Hi(e.ty))             \* any type, any vector
    [] e.op = "default" -> e.ty = ty /\ e.out = VNull(Len(acc))
    [] e.op = "add" -> e.form \in {"+", "+="} /\ e.out = VAdd(acc, e.v)
    [] e.op = "sub" -> e.form \in {"-", "-="} /\ e.out = VSub(acc, e.v)
    [] e.op = "mul" -> e.form \in {"v*k", "k*v", "*="} /\ e.out = VMul(acc, e.k)
    [] e.op = "div" -> e.form \in {"/", "/="} /\ e.k # 0
                       /\ IF e.ty \in {"f32", "F32"} THEN VMul(e.out, e.k) = acc ELSE e.out = VDiv(acc, e.k)
    [] e.op = "sum" -> e.form \in {"owned", "borrowed"} /\ e.out = SumOf(VNull(Len(acc)), <<acc>> \o e.vs)
    [] e.op = "dot" -> e.form \in {"inherent", "trait"} /\ e.res = Dot(acc, e.v) /\ e.out = acc
    [] e.op = "magnitude_sq" -> e.res = Dot(acc, acc) /\ e.out = acc
    [] e.op = "perp" -> Len(acc) = 2 /\ e.res = Perp(acc, e.v) /\ e.out = acc
    [] e.op = "cross" -> e.form \in {"cross", "*"} /\ e.out = Cross(acc, e.v)
    [] e.op = "lift" -> Len(acc) = 2 /\ e.out = Lift(acc)
    [] e.op \in {"array", "tuple", "iter", "slice", "get", "index", "map", "to_array", "fields", "copy"} -> e.out = acc    \* there and back
    [] e.op = "f32" -> /\ \/ ty \in Small
                          \/ ty = "F32" /\ Len(acc) = 3
                       /\ e.ty = "f32" /\ e.out = acc
SameType(e) == e.op \in {"new", "f32"} \/ e.ty = ty
Init == l = 1 /\ ty = "i8" /\ acc = <<0, 0>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN SameType(e) /\ Step(e) /\ acc' = e.out /\ ty' = e.ty
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Fits == In(acc, Lo(ty), Hi(ty))
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
