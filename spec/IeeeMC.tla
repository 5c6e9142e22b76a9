------------------------------- MODULE IeeeMC -------------------------------
(***************************************************************************)
(* A calculator on a small format, in which every operation is tried on    *)
(* all numbers: the relations of Ieee have exactly one result, which is    *)
(* the nearest number (in TLC's integers, of a fine enough unit), and they *)
(* have the laws of IEEE arithmetic.                                       *)
(***************************************************************************)
EXTENDS Ieee, TLC, FiniteSets
CONSTANT MulAdd            \* try all triples, too
VARIABLES x, y, z, op
vars == <<x, y, z, op>>
Numbers == [s : {0, 1}, m : 0..(InfBits + 1)]
Results(o, a, b) == {r \in Numbers : OpIs(o, a, b, r)}
Ops == {"add", "sub", "mul", "div", "rem"}
Canonical == [s |-> 0, m |-> InfBits + 1]
Chosen(o, a, b) == LET S == Results(o, a, b) IN IF \E r \in S : Nan(r) THEN Canonical ELSE CHOOSE r \in S : TRUE
Init == x \in Numbers /\ y = Canonical /\ z = Canonical /\ op = "none"
Calculate(o, b) == op = "none" /\ op' = o /\ y' = b /\ z' = Chosen(o, x, b) /\ UNCHANGED x
Next == \E o \in Ops, b \in Numbers : Calculate(o, b)
Spec == Init /\ [][Next]_vars

One(S) == S # {} /\ (Cardinality(S) = 1 \/ \A r \in S : Nan(r))
Functional == op # "none" => One(Results(op, x, y))
\* finite values in units of 2^(2 * (1 - Bias - P)), so that products are integers, too
Unit == 2^(Bias + P - 1)
Mag(m) == Signif(m) * 2^(Scale(m) + Bias + P - 1)
Val(a) == (IF a.s = 1 THEN -1 ELSE 1) * Mag(a.m)
Finite(a) == IsFinite(a.m)
Abs(v) == IF v < 0 THEN -v ELSE v
Over == 2^(EMax - 1) * 2^(P + 1)               \* what would follow the largest finite number
Top == InfBits - 1
ValInf(a) == IF Inf(a) THEN (IF a.s = 1 THEN -1 ELSE 1) * 2 * (2^P) * 2^(EMax - 2) ELSE Val(a)
\* a quotient n/d (d > 0) in units is as near to z as to any other number: twice the distances, times d
Nearest(n, d) == \A c \in Numbers : ~Nan(c) => Abs(n - ValInf(z) * d) <= Abs(n - ValInf(c) * d)
Near == op # "none" /\ Finite(x) /\ Finite(y) =>
  CASE op = "add" -> Nearest(Val(x) + Val(y), 1)
    [] op = "sub" -> Nearest(Val(x) - Val(y), 1)
    [] op = "mul" -> Nearest(Val(x) * Val(y), Unit)
    [] op = "div" -> ~Zero(y) => Nearest(Val(x) * Unit * (IF y.s = 1 THEN -1 ELSE 1), Mag(y.m))
    [] op = "rem" -> ~Zero(y) => /\ Abs(Val(z)) < Mag(y.m) /\ (Abs(Val(x)) - Abs(Val(z))) % Mag(y.m) = 0
                                 /\ Abs(Val(z)) <= Abs(Val(x)) /\ z.s = x.s
\* laws
NanOnly == op # "none" /\ Nan(z) => Nan(x) \/ Nan(y) \/ Inf(x) \/ Inf(y) \/ (Zero(y) /\ op \in {"div", "rem"})
Commutes == op \in {"add", "mul"} => z = Chosen(op, y, x)
Negates == op # "none" /\ ~Nan(z) => CASE op = "sub" -> Zero(z) \/ Chosen("sub", y, x) = Minus(z)
                       [] op \in {"mul", "div", "rem"} -> Chosen(op, Minus(x), y) = Minus(z)
                       [] op = "add" -> Zero(z) \/ Chosen("add", Minus(x), Minus(y)) = Minus(z)
\* differences of neighbouring numbers are exact (Sterbenz), differences are zero for equal numbers only (gradual underflow)
Exact == op = "sub" /\ Finite(x) /\ Finite(y) =>
  /\ (Zero(z) <=> Compare(x, y) = 0)
  /\ (x.s = y.s /\ Mag(x.m) <= 2 * Mag(y.m) /\ Mag(y.m) <= 2 * Mag(x.m) => Val(z) = Val(x) - Val(y))
Monotone == op \in {"add", "mul", "div"} /\ ~Nan(z) /\ x.m < InfBits /\ (op = "add" \/ y.s = 0) =>
  LET w == Chosen(op, [x EXCEPT !.m = @ + 1], y) IN
  Nan(w) \/ (IF x.s = 0 THEN Compare(z, w) \in {-1, 0} ELSE Compare(w, z) \in {-1, 0})
Selfless == (op = "div" /\ x = y /\ Finite(x) /\ ~Zero(x) => z = [s |-> 0, m |-> OneBits])
         /\ (op = "mul" /\ Is(y, 0, OneBits) /\ ~Nan(x) => z = x)
         /\ (op = "add" /\ Zero(y) /\ ~Zero(x) /\ ~Nan(x) => z = x)
\* x * y + 1, 0, the smallest number, ...
Fused == MulAdd => (op = "mul" => \A a \in Numbers :
  /\ (Zero(a) /\ ~Zero(x) /\ ~Zero(y) /\ ~Zero(z) => FmaIs(x, y, a, z))
  /\ (Is(y, 0, OneBits) => FmaIs(x, y, a, Chosen("add", x, a)))
  /\ One({r \in Numbers : FmaIs(x, y, a, r)}))
=============================================================================
