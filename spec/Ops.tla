-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The operator forms of F32, and what they give for special values.       *)
(* A value is a class (Z zero, F finite, I infinity, N NaN) with a sign.   *)
(* The state is a pair of operands; every form of an operator (either side *)
(* f32, by value or by assignment) is the same function of them (but %=    *)
(* with f32 on the left, which does not exist).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
OpNames == <<"add", "sub", "mul", "div", "rem">>
Forms == <<"FF", "Ff", "fF", "FF=", "Ff=", "fF=">>
Classes == <<"Z", "F", "I", "N">>
V(c, s) == [c |-> c, s |-> s]
Vals == {V(c, s) : c \in {"Z", "F", "I", "N"}, s \in {0, 1}}
NaN == V("N", 0)
Neg(x) == IF x.c = "N" THEN x ELSE V(x.c, 1 - x.s)
Xor(x, y) == (x.s + y.s) % 2
\* "?": a number that depends on the values (finite, zero, or infinite after an overflow)
Open == V("?", 0)
\* like "?", but with a certain sign
Some(s) == V("S", s)

Add(x, y) ==
  CASE x.c = "N" \/ y.c = "N" -> NaN
    [] x.c = "I" /\ y.c = "I" -> IF x.s = y.s THEN x ELSE NaN
    [] x.c = "I" -> x [] y.c = "I" -> y
    [] x.c = "Z" /\ y.c = "Z" -> IF x.s = y.s THEN x ELSE V("Z", 0)
    [] x.c = "Z" -> V("=", 1)             \* the second operand
    [] y.c = "Z" -> V("=", 0)             \* the first operand
    [] x.s = y.s -> Some(x.s)
    [] OTHER -> Open
Mul(x, y) ==
  CASE x.c = "N" \/ y.c = "N" -> NaN
    [] (x.c = "I" /\ y.c = "Z") \/ (x.c = "Z" /\ y.c = "I") -> NaN
    [] x.c = "I" \/ y.c = "I" -> V("I", Xor(x, y))
    [] x.c = "Z" \/ y.c = "Z" -> V("Z", Xor(x, y))
    [] OTHER -> Some(Xor(x, y))
Div(x, y) ==
  CASE x.c = "N" \/ y.c = "N" -> NaN
    [] x.c = y.c /\ x.c \in {"Z", "I"} -> NaN
    [] x.c = "I" \/ y.c = "Z" -> V("I", Xor(x, y))
    [] x.c = "Z" \/ y.c = "I" -> V("Z", Xor(x, y))
    [] OTHER -> Some(Xor(x, y))
Rem(x, y) ==
  CASE x.c = "N" \/ y.c = "N" \/ x.c = "I" \/ y.c = "Z" -> NaN
    [] y.c = "I" \/ x.c = "Z" -> V("=", 0)
    [] OTHER -> Some(x.s)
Neg2(r) == IF r.c \in {"N", "?", "="} THEN r ELSE V(r.c, 1 - r.s)
Res(op, x, y) == CASE op = "add" -> Add(x, y)
                   [] op = "sub" -> IF y.c = "F" /\ x.c = "Z" THEN Open ELSE Add(x, Neg(y))
                   [] op = "mul" -> Mul(x, y) [] op = "div" -> Div(x, y) [] op = "rem" -> Rem(x, y)
\* -1, 0, 1; 2: unordered; 3: depends on the values
Cmp(x, y) ==
  LET rank(z) == CASE z.c = "Z" -> 0 [] z.c = "F" -> IF z.s = 0 THEN 1 ELSE -1 [] z.c = "I" -> IF z.s = 0 THEN 2 ELSE -2 [] OTHER -> 9
  IN IF x.c = "N" \/ y.c = "N" THEN 2 ELSE IF x.c = "F" /\ y.c = "F" /\ x.s = y.s THEN 3
     ELSE IF rank(x) < rank(y) THEN -1 ELSE IF rank(x) > rank(y) THEN 1 ELSE 0

VARIABLES x, y
Init == x \in Vals /\ y \in Vals
FlipX == x' = Neg(x) /\ UNCHANGED y
FlipY == y' = Neg(y) /\ UNCHANGED x
Exchange == x' = y /\ y' = x
Next == FlipX \/ FlipY \/ Exchange
Spec == Init /\ [][Next]_<<x, y>>

Same(a, b) == a = b \/ (a.c = "=" /\ b.c = "=")
Commutes == \A op \in {"add", "mul"} : Same(Res(op, x, y), Res(op, y, x))
SubIsAdd == Same(Res("sub", x, y), Res("add", x, Neg(y))) \/ Res("sub", x, y) = Open
Inverse == x.c \in {"F", "I"} /\ y.c \in {"F", "I"} => (Res("mul", x, y).c # "N" /\ (x.c # y.c => Res("div", x, y).c # "N"))
Antisymmetric == Cmp(x, y) \in {-1, 0, 1} => Cmp(y, x) = -Cmp(x, y)
\* 0 is neutral (the sign of a zero aside), and so is 1 (a positive F) but for rounding, which there is none of
Neutral == LET r == Res("add", x, V("Z", 0)) IN r.c = "=" \/ (r.c = x.c /\ (x.c \in {"I", "F"} => r.s = x.s))
Unit == Res("mul", x, V("F", 0)) \in (IF x.c = "F" THEN {Some(x.s)} ELSE IF x.c = "N" THEN {NaN} ELSE {x})
NaNFromNaN == \A i \in 1..5 : x.c = "N" \/ y.c = "N" => Res(OpNames[i], x, y) = NaN
Bilinear == [][ (FlipX \/ FlipY) => \A op \in {"mul", "div"} : Res(op, x', y') = Neg2(Res(op, x, y)) \/ x.c = "N" \/ y.c = "N" ]_<<x, y>>
Odd == [][ FlipX => (Res("rem", x', y') = Neg2(Res("rem", x, y)) \/ x.c = "N") ]_<<x, y>>

At(k) == V(Classes[(k % 4) + 1], k \div 4)
Rows == << [fn |-> "forms", forms |-> Forms, ops |-> OpNames] >> \o
  [j \in 1..320 |-> LET k == j - 1  op == OpNames[(k \div 64) + 1]  a == At((k \div 8) % 8)  b == At(k % 8)  r == Res(op, a, b)
                    IN [fn |-> op, xi |-> (k \div 8) % 8, yi |-> k % 8, c |-> r.c, s |-> r.s]] \o
  [j \in 1..64 |-> LET k == j - 1 IN [fn |-> "cmp", xi |-> k \div 8, yi |-> k % 8, c |-> "", s |-> Cmp(At(k \div 8), At(k % 8))]]
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
