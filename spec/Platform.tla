------------------------------ MODULE Platform ------------------------------
(***************************************************************************)
(* What a platform is (the order of bytes, the width of usize, and whether *)
(* the build checks for overflow), and how numbers are represented on it.  *)
(* Functions of this crate are functions of values: representations differ *)
(* between platforms, results must not.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Orders == {"little", "big"}
\* the digits of v in a base, the least significant first
Digits(v, base, n) == [k \in 1..n |-> (v \div base ^ (k - 1)) % base]
RECURSIVE Value(_, _)
Value(d, base) == IF d = <<>> THEN 0 ELSE d[1] + base * Value(Tail(d), base)
Turned(d) == [k \in 1..Len(d) |-> d[Len(d) + 1 - k]]
InOrder(d, order) == IF order = "little" THEN d ELSE Turned(d)
Store(v, order, base, n) == InOrder(Digits(v, base, n), order)
Load(bytes, order, base) == Value(InOrder(bytes, order), base)
\* what platforms a comparison needs at least
Covers(ps) ==
  /\ \E p \in ps : p.order = "big" /\ p.width = 32
  /\ \E p \in ps : p.order = "big" /\ p.width = 64
  /\ \E p \in ps : p.order = "little" /\ p.width = 32
  /\ \E p \in ps : p.order = "little" /\ p.width = 64 /\ p.checked
  /\ \E p \in ps : p.order = "little" /\ p.width = 64 /\ ~p.checked
=============================================================================
