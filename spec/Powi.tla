-------------------------------- MODULE Powi --------------------------------
(***************************************************************************)
(* Powers with integer exponents by squaring and multiplying.  Numbers are *)
(* held as exponents of the base x: base = x^b, acc = x^a, together with   *)
(* bounds of their relative errors in units of half an ulp (eb, ea).  The  *)
(* exponent n is a two's complement number of W bits, so that -n does not  *)
(* exist for the smallest one.  TLC checks, for every n, that the loop     *)
(* ends with acc = x^|n|, how often it multiplies, and the error bound     *)
(* that the contract (and C15) states; and it writes the contract for the  *)
(* classes of Contract2 and the parity of n.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT W
VARIABLES n, k, a, b, ea, eb, mults, done
vars == <<n, k, a, b, ea, eb, mults, done>>
Abs(v) == IF v < 0 THEN -v ELSE v
Exponents == -(2^(W-1)) .. (2^(W-1) - 1)

\* k is the unsigned magnitude, which exists for every n
Init == /\ n \in Exponents /\ k = Abs(n) /\ a = 0 /\ b = 1 /\ ea = 0 /\ eb = 0 /\ mults = 0 /\ done = FALSE
Multiply == k % 2 = 1 /\ a' = a + b /\ ea' = (IF a = 0 THEN eb ELSE ea + eb + 1) /\ mults' = mults + 1
Square == k > 1 /\ k' = k \div 2 /\ b' = 2 * b /\ eb' = 2 * eb + 1
Step ==
  /\ k > 0 /\ ~done
  /\ (IF k % 2 = 1 THEN Multiply ELSE UNCHANGED <<a, ea, mults>>)
  /\ (IF k > 1 THEN Square ELSE k' = 0 /\ UNCHANGED <<b, eb>>)
  /\ UNCHANGED <<n, done>>
\* a negative exponent divides 1 by the result, with one more rounding
Invert == /\ k = 0 /\ ~done /\ done' = TRUE
          /\ a' = (IF n < 0 THEN -a ELSE a) /\ ea' = (IF n < 0 THEN ea + 1 ELSE ea)
          /\ UNCHANGED <<n, k, b, eb, mults>>
Next == Step \/ Invert
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* x^acc * (x^b)^k is the power wanted, at every step
Loop == ~done => a + b * k = Abs(n)
Result == done => a = n
\* in half ulps (2^-24): 2 |n| + 8 leaves room for other orders of multiplication
Error == done => ea <= 2 * Abs(n) + 8
Tight == ea <= 2 * Abs(n) + 1 /\ eb <= 2 * b
Work == mults <= W
Ends == <>done
\* the sign of a power of a negative base: one minus sign for each factor
Odd(v) == Abs(v) % 2 = 1
Signs == done => (Odd(a) <=> Odd(n))
---------------------------------------------------------------------------
\* The contract.  kind: ONE 1; NAN; POWI the power, with the sign sg (0: +, 1: -); ANY
ClassNames == <<"Z", "SUB", "S", "M", "L", "I", "N">>
Upto == << 0, 2^23 - 1, 67 * 2^23 - 1, 187 * 2^23, 255 * 2^23 - 1, 255 * 2^23, 2147483647 >>
KindOf(xs, x, e) == \* e: "zero", "even", "odd" (an exponent of either sign)
  IF e = "zero" THEN "ONE" ELSE IF x = 7 THEN "NAN" ELSE IF x = 6 THEN "ANY" ELSE "POWI"
Parities == <<"zero", "even", "odd">>
Rows == << [fn |-> "classes", upto |-> Upto] >> \o [j \in 1..42 |->
  LET p == Parities[((j - 1) \div 14) + 1]  x == ((j - 1) % 7) + 1  xs == ((j - 1) \div 7) % 2
  IN [fn |-> "powi", xs |-> xs, xc |-> x - 1, par |-> p, kind |-> KindOf(xs, x, p), sg |-> IF xs = 1 /\ p = "odd" THEN 1 ELSE 0, a |-> 2, b |-> 8]]
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
