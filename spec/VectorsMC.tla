----------------------------- MODULE VectorsMC -----------------------------
(* All histories of the vector register with components in Lo..Hi *)
EXTENDS Vectors, FiniteSets, TLC
Lo == -2
Hi == 2
R == Lo..Hi
Vec(n) == [1..n -> R]
VARIABLES acc, log           \* log: what was added and subtracted in total
vars == <<acc, log>>
Init == \E n \in 2..3 : acc = VNull(n) /\ log = VNull(n)
AddV == \E v \in Vec(Len(acc)) : In(VAdd(acc, v), Lo, Hi) /\ acc' = VAdd(acc, v) /\ log' = v
SubV == \E v \in Vec(Len(acc)) : In(VSub(acc, v), Lo, Hi) /\ acc' = VSub(acc, v) /\ log' = VSub(VNull(Len(acc)), v)
MulV == \E k \in R : In(VMul(acc, k), Lo, Hi) /\ acc' = VMul(acc, k) /\ log' = VSub(acc', acc)
DivV == \E k \in R \ {0} : In(VDiv(acc, k), Lo, Hi) /\ acc' = VDiv(acc, k) /\ log' = VSub(acc', acc)
Promote == Len(acc) = 2 /\ acc' = Lift(acc) /\ log' = VNull(3)
Next == AddV \/ SubV \/ MulV \/ DivV \/ Promote
Spec == Init /\ [][Next]_vars
Fits == In(acc, Lo, Hi)
Delta == [][Len(acc') = Len(acc) => acc' = VAdd(acc, log')]_vars
Null == VNull(Len(acc))
\* laws, for the vector reached and any other one
Laws == \A v \in Vec(Len(acc)) :
  /\ VSub(VAdd(acc, v), v) = acc /\ VAdd(acc, v) = VAdd(v, acc) /\ VSub(acc, v) = VSub(Null, VSub(v, acc))
  /\ Dot(acc, v) = Dot(v, acc) /\ Cross(acc, v) = VSub(VNull(3), Cross(v, acc)) /\ Cross(acc, acc) = VNull(3)
  /\ SumOf(Null, <<acc, v, acc>>) = VAdd(VMul(acc, 2), v)
  /\ (Len(acc) = 2 => Cross(acc, v) = Cross(Lift(acc), Lift(v)) /\ Perp(acc, v) = Cross(acc, v)[3] /\ Dot(acc, v) = Dot(Lift(acc), Lift(v)))
Division == \A k \in R \ {0} : VDiv(VMul(acc, k), k) = acc
  /\ \A i \in DOMAIN acc : LET d == acc[i] - k * VDiv(acc, k)[i] IN Abs(d) < Abs(k) /\ (d # 0 => (d < 0) = (acc[i] < 0))
Spread == Dot(acc, acc) >= 0 /\ (Dot(acc, acc) = 0 <=> acc = Null)
=============================================================================
