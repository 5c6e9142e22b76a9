----------------------------- MODULE QuatTrace -----------------------------
(***************************************************************************)
(* Histories of quaternions with integer components: each event takes the  *)
(* register acc to out.  turn events turn a body (matrix m) by quarter     *)
(* turns; basis has the rotated basis vectors that the code gave, rounded. *)
(***************************************************************************)
EXTENDS Quat, TLC, Json, IOUtils
VARIABLES l, acc, m
vars == <<l, acc, m>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Quaternion(e) ==
  CASE e.op = "new" -> e.form \in {"new", "tuple", "array"} /\ e.out = e.v
    [] e.op = "vector" -> e.out = Pure(e.v)
    [] e.op = "one" -> e.form \in {"IDENTITY", "default"} /\ e.out = One
    [] e.op = "back" -> e.form \in {"to_array", "wxyz", "tuple", "array", "copy"} /\ e.out = acc
    [] e.op = "add" -> e.form \in {"+", "+="} /\ e.out = HAdd(acc, e.v)
    [] e.op = "sub" -> e.form \in {"-", "-="} /\ e.out = HSub(acc, e.v)
    [] e.op = "mul" -> e.out = IF e.form = "left" THEN HMul(acc, e.v) ELSE HMul(e.v, acc)
    [] e.op = "scale" -> e.form \in {"scale", "q*k", "k*q", "*="} /\ e.out = HScale(e.k, acc)
    [] e.op = "conj" -> e.out = Conj(acc)
    [] e.op = "dot" -> e.res = Dot(acc, e.v) /\ e.out = acc
    [] e.op = "norm" -> e.res = Norm(acc) /\ e.out = acc
    [] e.op = "rotate" -> e.form \in {"rotate", "*"} /\ e.res = Rotate(acc, e.v) /\ e.out = acc
Step(e) ==
  CASE e.op = "start" -> m' = MOne /\ acc' = acc
    [] e.op = "turn" -> /\ e.k \in 0..3 /\ m' = MMul(Turns(e.axis, e.k), m) /\ acc' = acc
                        /\ \A i \in 1..3 : e.basis[i] = Apply(m', E3(i))
    [] OTHER -> Quaternion(e) /\ acc' = e.out /\ m' = m
Init == l = 1 /\ acc = One /\ m = MOne
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
