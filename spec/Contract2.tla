------------------------------ MODULE Contract2 ------------------------------
(***************************************************************************)
(* The contracts of the functions of two numbers: each argument is in one  *)
(* of 7 magnitude classes with a sign, and each pair of classes has one    *)
(* predicate.  (For an exponent n of powi, the classes are those of n as a *)
(* number.)  The state is a pair of classes on its way through the classes *)
(* (neighbours in magnitude, sign flips, the exchange of both arguments),  *)
(* so that the symmetries are action properties.                           *)
(*   ATAN2  the angle of (x, y) within a, in [-pi, pi], sign of y          *)
(*   ATAN2N the same in quarter turns, in [0, 4]                           *)
(*   HYPOT  (1-a) h <= r <= (1+b) h                                        *)
(*   LOGB   |r - t| <= (1 + |t|) a / |ln b| + 10^-6 |t|, if |ln b| >= 0.01 *)
(*   POWF   |ln r - n ln x| <= a + b |n| (infinite, tiny outside of the range) *)
(*   POWFNEG NaN unless n is an integer, else +-powf(|x|, n), - for odd n  *)
(*   REM    the Euclidean remainder                                        *)
(*   DIVE   the quotient of integers, and of others if it is below 2^22    *)
(*          (within 2^-22 of an integer it may be off by one)              *)
(*   NAN, EQ, POS, NOTNAN, ANY                                             *)
(***************************************************************************)
EXTENDS Float, TLC, Json, IOUtils

Classes == <<"Z", "SUB", "S", "M", "L", "I", "N">>
Z == 1 SUB == 2 S == 3 M == 4 L == 5 I == 6 NN == 7
\* the largest magnitude bits of each class
Upto == << 0, 2^23 - 1, 67 * 2^23 - 1, 187 * 2^23, InfBits - 1, InfBits, 2147483647 >>
Fin(c) == c <= L
Functions == <<"atan2", "atan2_norm", "hypot", "log", "powf", "rem_euclid", "div_euclid">>
K(kind, a, b) == [kind |-> kind, a |-> a, b |-> b]
Free == K("ANY", 0, 0)

\* f(x, y) in the order of the arguments of the method: x is the receiver
Kind(fn, xs, x, ys, y) ==
  CASE fn \in {"atan2", "atan2_norm"} ->
         IF x = NN \/ y = NN THEN K("NAN", 0, 0)
         ELSE IF x = Z /\ y = Z THEN K("EQ", 0, 0)
         ELSE IF x <= M /\ y <= M /\ (x = M \/ y = M) THEN (IF fn = "atan2" THEN K("ATAN2", 30000, 0) ELSE K("ATAN2N", 19000, 0))
         ELSE Free
    [] fn = "hypot" ->
         IF x <= M /\ y <= M /\ (x = M \/ y = M) THEN K("HYPOT", 100, 610000)
         ELSE IF Fin(x) /\ Fin(y) THEN K("NOTNAN", 0, 0) ELSE Free
    [] fn = "log" ->
         IF x = NN \/ y = NN THEN K("NAN", 0, 0)
         ELSE IF xs = 0 /\ ys = 0 /\ x \in {S, M, L} /\ y \in {S, M, L} THEN K("LOGB", 1000, 0) ELSE Free
    [] fn = "powf" ->
         IF x = NN THEN (IF y = Z THEN Free ELSE K("NAN", 0, 0))
         ELSE IF ~Fin(y) THEN Free
         ELSE IF xs = 0 /\ x \in {S, M, L} THEN K("POWF", 30000, 1000)
         ELSE IF xs = 1 /\ x \in {S, M, L} THEN K("POWFNEG", 1, 0)
         ELSE IF xs = 1 /\ x # Z THEN K("POWFNEG", 0, 0)    \* only where it is NaN
         ELSE Free
    [] fn = "rem_euclid" ->
         IF ~Fin(x) \/ y = Z \/ y = NN THEN K("NAN", 0, 0) ELSE IF y = I THEN Free ELSE K("REM", 0, 0)
    [] fn = "div_euclid" ->
         IF Fin(x) /\ Fin(y) /\ y # Z THEN K("DIVE", 0, 0) ELSE Free

VARIABLES fn, xs, x, ys, y
vars == <<fn, xs, x, ys, y>>
Init == fn \in {Functions[k] : k \in 1..Len(Functions)} /\ xs = 0 /\ ys = 0 /\ x = Z /\ y = Z
Grow == \/ x < NN /\ x' = x + 1 /\ UNCHANGED <<fn, xs, ys, y>>
        \/ y < NN /\ y' = y + 1 /\ UNCHANGED <<fn, xs, ys, x>>
FlipX == xs' = 1 - xs /\ UNCHANGED <<fn, x, ys, y>>
FlipY == ys' = 1 - ys /\ UNCHANGED <<fn, x, xs, y>>
Swap == x' = y /\ y' = x /\ xs' = ys /\ ys' = xs /\ UNCHANGED fn
Next == Grow \/ FlipX \/ FlipY \/ Swap
Spec == Init /\ [][Next]_vars

Here == Kind(fn, xs, x, ys, y)
TypeOK == Here.kind \in {"ATAN2", "ATAN2N", "HYPOT", "LOGB", "POWF", "POWFNEG", "REM", "DIVE", "NAN", "EQ", "NOTNAN", "ANY"}
Ordered == \A k \in 1..6 : Upto[k] < Upto[k + 1]
\* NaN is only demanded outside of the domain
NaNs == (Here.kind = "NAN") => x = NN \/ y = NN \/ (fn = "rem_euclid" /\ (x = I \/ y = Z))
SwapKeeps == [][Swap => (fn \in {"hypot", "atan2", "atan2_norm"} => Here' = Here)]_vars
FlipKeeps == [][(FlipX \/ FlipY) => (fn \in {"hypot", "rem_euclid", "div_euclid", "atan2", "atan2_norm"} => Here' = Here)]_vars
\* negative bases are specified wherever positive ones are
NegPow == (fn = "powf" /\ xs = 0 /\ Here.kind = "POWF") => Kind(fn, 1, x, ys, y) = K("POWFNEG", 1, 0)

RECURSIVE Cells(_)
NC == 7
Cells(k) == \* cell number k, 0-based, in the order fn, xs, x, ys, y
  IF k = Len(Functions) * 4 * NC * NC THEN <<>>
  ELSE LET f == Functions[(k \div (4 * NC * NC)) + 1]
           r == k % (4 * NC * NC)
           a == r \div (2 * NC)  b == r % (2 * NC)
           kd == Kind(f, a \div NC, (a % NC) + 1, b \div NC, (b % NC) + 1)
       IN << [fn |-> f, xs |-> a \div NC, xc |-> a % NC, ys |-> b \div NC, yc |-> b % NC, kind |-> kd.kind, a |-> kd.a, b |-> kd.b] >> \o Cells(k + 1)
Header == << [fn |-> "classes", upto |-> Upto, intbits |-> [e \in 1..(EMax + 1) |-> IntBits(e - 1)]] >>
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, Header \o Cells(0))
=============================================================================
