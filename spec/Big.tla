--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size, as sequences of digits to the base 2^LB,   *)
(* the lowest digit first, without leading zeros (so <<>> is 0).  TLC's    *)
(* integers have 32 bits, so LB <= 12 keeps the sums of up to 128 products *)
(* of digits among them.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT LB
Base == 2^LB
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Nat2Big(_)
Nat2Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat2Big(n \div Base)
DigitAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxN(m, n) == IF m > n THEN m ELSE n
MinN(m, n) == IF m < n THEN m ELSE n
\* columns c, as a function on 1..n, with a carry; columns may be negative, the total not
RECURSIVE Carried(_, _, _, _)
Carried(c, n, i, cy) ==
  IF i > n THEN Nat2Big(cy) ELSE LET t == c[i] + cy IN <<t % Base>> \o Carried(c, n, i + 1, t \div Base)
BAdd(a, b) == LET n == MaxN(Len(a), Len(b)) IN Carried([i \in 1..n |-> DigitAt(a, i) + DigitAt(b, i)], n, 1, 0)
BSub(a, b) == LET n == MaxN(Len(a), Len(b)) IN Trim(Carried([i \in 1..n |-> DigitAt(a, i) - DigitAt(b, i)], n, 1, 0))   \* for a >= b
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > MinN(k, Len(a)) THEN 0 ELSE a[i] * DigitAt(b, k + 1 - i) + Column(a, b, k, i + 1)
BMul(a, b) == LET n == Len(a) + Len(b) - 1 IN
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carried([k \in 1..n |-> Column(a, b, k, MaxN(1, k + 1 - Len(b)))], n, 1, 0)
Shl(a, k) == IF a = <<>> \/ k = 0 THEN a ELSE [i \in 1..(k \div LB) |-> 0] \o BMul(a, <<2^(k % LB)>>)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE LET h == BPow(a, n \div 2) s == BMul(h, h) IN IF n % 2 = 1 THEN BMul(s, a) ELSE s
\* decimal digits, the highest first
RECURSIVE OfDigits(_, _)
OfDigits(d, n) == IF n = 0 THEN <<>> ELSE BAdd(BMul(OfDigits(d, n - 1), Nat2Big(10)), Nat2Big(d[n]))
IsBig(a) == (\A i \in 1..Len(a) : a[i] \in 0..(Base - 1)) /\ (a # <<>> => a[Len(a)] # 0)
=============================================================================
