----------------------------- MODULE SessionMC -----------------------------
(***************************************************************************)
(* The register machine on a small range, with all its operations.         *)
(***************************************************************************)
EXTENDS Session, TLC, FiniteSets
CONSTANT R                       \* -R..R quarters
VARIABLES acc, v, last           \* the register, the operand, the last call
vars == <<acc, v, last>>
Range == -R..R
Init == acc \in Range /\ v \in Range /\ last = [op |-> "set", a |-> acc, b |-> v]
Call2(op, right) == /\ \E r \in Range : Binary(op, IF right THEN v ELSE acc, IF right THEN acc ELSE v, r) /\ acc' = r
                    /\ last' = [op |-> op, a |-> IF right THEN v ELSE acc, b |-> IF right THEN acc ELSE v] /\ UNCHANGED v
Call1(op) == /\ \E r \in Range : Unary(op, acc, r) /\ acc' = r
             /\ last' = [op |-> op, a |-> acc, b |-> 0] /\ UNCHANGED v
Set == \E w \in Range : v' = w /\ last' = [op |-> "set", a |-> acc, b |-> w] /\ UNCHANGED acc
Next == (\E op \in BinaryOps, right \in BOOLEAN : Call2(op, right)) \/ (\E op \in UnaryOps : Call1(op)) \/ Set
Spec == Init /\ [][Next]_vars

TypeOK == acc \in Range /\ v \in Range
\* the operations are functions: at most one result (copysign of zero and signum of zero have two signs, one value)
Results(op) == {r \in Range : Binary(op, acc, v, r)}
Functional == last.op = "set" => \A op \in BinaryOps : (op # "copysign" \/ v # 0) => Cardinality(Results(op)) <= 1
\* laws
Laws == CASE last.op = "sub" -> acc + last.b = last.a
          [] last.op = "div" -> acc * last.b = U * last.a
          [] last.op = "rem" -> Abs(acc) < Abs(last.b) /\ (last.a - acc) % Abs(last.b) = 0 /\ acc * last.a >= 0
          [] last.op = "rem_euclid" -> 0 <= acc /\ acc < Abs(last.b) /\ (last.a - acc) % Abs(last.b) = 0
          [] last.op = "trunc" -> acc % U = 0 /\ Abs(acc) <= Abs(last.a) /\ Abs(last.a - acc) < U
          [] last.op = "fract" -> (last.a - acc) % U = 0 /\ Abs(acc) < U /\ acc * last.a >= 0
          [] last.op = "floor" -> acc % U = 0 /\ acc <= last.a /\ last.a < acc + U
          [] last.op = "ceil"  -> acc % U = 0 /\ acc >= last.a /\ last.a > acc - U
          [] last.op = "round" -> acc % U = 0 /\ 2 * Abs(acc - last.a) <= U /\ (2 * Abs(acc - last.a) = U => Abs(acc) > Abs(last.a))
          [] last.op \in {"abs"} -> acc = Abs(last.a)
          [] OTHER -> TRUE
\* an operator and its form with exchanged operands
Exchange == last.op = "set" => \A op \in {"add", "mul"} : \A r \in Range : Binary(op, acc, v, r) <=> Binary(op, v, acc, r)
Division == last.op = "set" => \A q, r \in Range : (v # 0 /\ Binary("div_euclid", acc, v, q) /\ Binary("rem_euclid", acc, v, r)) => acc = (q \div U) * v + r
=============================================================================
