------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Vectors, quaternions and F32 as values: they are equal if and only if   *)
(* all components are, a copy has the components of the original and a     *)
(* life of its own, and their Debug text is the name of the type and the   *)
(* texts of all components in order.                                       *)
(* Components are numbers [s |-> sign, m |-> magnitude (bits)], integers   *)
(* or floating point ones; keys (of a user's type) that are compared only  *)
(* by m.                                                                   *)
(***************************************************************************)
EXTENDS Float, Sequences, Naturals, FiniteSets
CONSTANT Registers
Kinds == {"F32", "Vector2d", "Vector3d", "Quaternion"}
Axes(kind) == CASE kind = "F32" -> 1 [] kind = "Vector2d" -> 2 [] kind = "Vector3d" -> 3 [] kind = "Quaternion" -> 4
\* == of components
Same(a, b, comp) ==
  CASE comp = "float" -> ~IsNaN(a.m) /\ ~IsNaN(b.m) /\ (a = b \/ (a.m = 0 /\ b.m = 0))
    [] comp = "int" -> a = b
    [] comp = "key" -> a.m = b.m
Equal(u, v, comp) == \A i \in DOMAIN u : Same(u[i], v[i], comp)
\* the same number, or both NaN
Alike(a, b, comp) == a = b \/ (comp = "float" /\ IsNaN(a.m) /\ IsNaN(b.m))
AllAlike(u, v, comp) == Len(u) = Len(v) /\ \A i \in DOMAIN u : Alike(u[i], v[i], comp)
Zero == [s |-> 0, m |-> 0]
One(comp) == [s |-> 0, m |-> IF comp = "float" THEN Bias * 2^P ELSE 1]
Default(kind, comp) == IF kind = "Quaternion" THEN <<One(comp), Zero, Zero, Zero>> ELSE [i \in 1..Axes(kind) |-> Zero]
Field == <<"x", "y", "z">>
RECURSIVE Joined(_)
Joined(t) == IF Len(t) = 1 THEN t[1] ELSE t[1] \o ", " \o Joined(Tail(t))
\* texts of the components to the text of the value
Debug(kind, texts) ==
  IF kind \in {"Vector2d", "Vector3d"} THEN kind \o " { " \o Joined([i \in DOMAIN texts |-> Field[i] \o ": " \o texts[i]]) \o " }"
  ELSE kind \o "(" \o Joined(texts) \o ")"

\* The machine: registers that hold values of one kind
VARIABLES kind, comp, regs
Fresh(k, c) == kind' = k /\ comp' = c /\ regs' = [r \in Registers |-> Default(k, c)]
Put(r, v) == Len(v) = Axes(kind) /\ regs' = [regs EXCEPT ![r] = v] /\ UNCHANGED <<kind, comp>>
Copy(r, q) == regs' = [regs EXCEPT ![r] = regs[q]] /\ UNCHANGED <<kind, comp>>
Set(r, i, c) == i \in 1..Axes(kind) /\ regs' = [regs EXCEPT ![r][i] = c] /\ UNCHANGED <<kind, comp>>
Look == UNCHANGED <<kind, comp, regs>>
=============================================================================
