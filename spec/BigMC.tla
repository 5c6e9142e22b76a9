-------------------------------- MODULE BigMC --------------------------------
(***************************************************************************)
(* A calculator with a register of several (small) digits, which is to     *)
(* agree with TLC's own integers, for all operands up to Most.             *)
(***************************************************************************)
EXTENDS Big, TLC
CONSTANT Most
VARIABLES a, n       \* the register, and the integer that it stands for
vars == <<a, n>>
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<k>> ELSE Append(Digits(k \div 10), k % 10)
Init == a = <<>> /\ n = 0
Become(b, k) == k <= Most * Most /\ a' = b /\ n' = k
Next == \/ \E k \in 0..Most : \/ Become(BAdd(a, Nat2Big(k)), n + k)
                              \/ n <= Most /\ Become(BMul(a, Nat2Big(k)), n * k)
                              \/ k <= n /\ Become(BSub(a, Nat2Big(k)), n - k)
        \/ \E k \in 0..8 : n * 2^k <= Most * Most /\ Become(Shl(a, k), n * 2^k)
        \/ n \in 1..6 /\ \E k \in 0..4 : Become(BPow(a, k), n^k)
        \/ Become(OfDigits(Digits(n), Len(Digits(n))), n)
Spec == Init /\ [][Next]_vars
Represents == IsBig(a) /\ a = Nat2Big(n)
Orders == \A k \in 0..Most : BCmp(a, Nat2Big(k)) = (IF n < k THEN -1 ELSE IF n > k THEN 1 ELSE 0)
=============================================================================
