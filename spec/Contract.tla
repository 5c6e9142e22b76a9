------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The contracts of the unary functions of micromath: for every function   *)
(* and sign, consecutive intervals of magnitude bits, with the predicate   *)
(* that the result has to satisfy there.  One state per row; TLC checks    *)
(* that the rows of each function cover every bit pattern exactly once,    *)
(* that they agree with the symmetries claimed, and that contracts of      *)
(* neighbouring functions imply each other where they should.              *)
(*                                                                         *)
(* Predicates (tolerances a, b in units of 10^-7):                         *)
(*   NAN      the result is NaN   INF   sign s of infinity   PINF  infinity *)
(*   WITHIN   |r| <= 2^a (1 + b), sign of x or zero;  POS 0 < r <= 2^a     *)
(*   NONNEG   0 <= r <= 2^a (1 + b)          EQ    r = a (integer)         *)
(*   SQRT     (1-a) sqrt(x) <= r <= (1+b) sqrt(x)                          *)
(*   RSQRT    |r sqrt(x) - 1| <= a           RECIP |r x - 1| <= a          *)
(*   EXP      |r / e^x - 1| <= a             COSH  |r / cosh x - 1| <= a   *)
(*   EXPINF   infinite, or EXP               LN, LOG2, LOG10 |r - log x| <= a *)
(*   SIN, COS |r - f(x)| <= a + |x| 2^b, |r| <= 1 + 2^-20 (b = 0: none)    *)
(*   UNIT     |r| <= 1 + 2^-20               TAN   |r cos x - sin x| <= a (1 + |r|) *)
(*   ATAN     |r - atan x| <= a, ATANN |r - atan x / (pi/2)| <= a, |r| <= 1 *)
(*   ASIN     |r - asin x| <= a, |r| <= pi/2; ACOS |r - acos x| <= a, 0 <= r <= pi *)
(*   ANY      not specified (but no panic)                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Top == 2147483647                    \* the largest magnitude bits (a NaN)
InfB == 255 * 2^23
MinNormal == 2^23
OneB == 127 * 2^23

\* the bits of 2^e, and of the largest number <= n/d (n, d > 0, n/d in [1, 2^10), d <= 1000)
PowB(e) == (127 + e) * 2^23
RECURSIVE Log2Floor(_, _)
Log2Floor(n, d) == IF n < 2 * d THEN 0 ELSE 1 + Log2Floor(n, 2 * d)
RECURSIVE Digits(_, _, _, _)
Digits(r, d, q, k) == IF k = 0 THEN q ELSE IF 2 * r >= d THEN Digits(2 * r - d, d, 2 * q + 1, k - 1) ELSE Digits(2 * r, d, 2 * q, k - 1)
RatB(n, d) == LET e == Log2Floor(n, d)
                  D == d * 2^e
              IN PowB(e) + Digits(n - D, D, 0, 23)

\* upto: the interval ends with these bits (inclusive)
C(upto, kind, a, b) == [upto |-> upto, kind |-> kind, a |-> a, b |-> b]
Inf(kind, a) == C(InfB, kind, a, 0)
Nan == C(Top, "NAN", 0, 0)
Finite == InfB - 1

Positive(fn) ==
  CASE fn \in {"sin", "cos"} ->
       LET K == IF fn = "sin" THEN "SIN" ELSE "COS" IN
       << C(PowB(13), K, 20000, 0), C(PowB(23), K, 20000, -22), C(Finite, "UNIT", 0, 0), Inf("NAN", 0), Nan >>
    [] fn = "tan"      -> << C(PowB(13), "TAN", 20000, 0), C(Finite, "ANY", 0, 0), Inf("NAN", 0), Nan >>
    [] fn = "atan"     -> << Inf("ATAN", 30000), Nan >>
    [] fn = "atan_norm" -> << Inf("ATANN", 19000), Nan >>
    [] fn = "asin"     -> << C(OneB, "ASIN", 200000, 0), Inf("NAN", 0), Nan >>
    [] fn = "acos"     -> << C(OneB, "ACOS", 300000, 0), Inf("NAN", 0), Nan >>
    [] fn = "sqrt"     -> << C(MinNormal - 1, "POS", -60, 0), C(Finite, "SQRT", 100, 610000), Inf("INF", 0), Nan >>
    [] fn = "invsqrt"  -> << C(MinNormal - 1, "ANY", 0, 0), C(Finite, "RSQRT", 350000, 0), Inf("POS", -63), Nan >>
    [] fn = "inv"      -> << C(MinNormal - 1, "ANY", 0, 0), C(PowB(126), "RECIP", 1260000, 0), C(Finite, "WITHIN", -126, 1000000), Inf("EQ", 0), Nan >>
    [] fn = "recip"    -> << C(0, "INF", 0, 0), C(MinNormal - 1, "ANY", 0, 0), C(PowB(125) + 7980256, "RECIP", 100, 0), C(Finite, "WITHIN", -126, 1000000), Inf("EQ", 0), Nan >>
    [] fn = "exp"      -> << C(RatB(887, 10), "EXP", 10000, 0), C(RatB(888, 10), "EXPINF", 10000, 0), Inf("INF", 0), Nan >>
    [] fn = "cosh"     -> << C(RatB(887, 10), "COSH", 10000, 0), C(RatB(895, 10), "EXPINF", 0, 0), Inf("PINF", 0), Nan >>
    [] fn = "ln"       -> << C(MinNormal - 1, "ANY", 0, 0), C(OneB - 1, "LN", 1000, 0), C(OneB, "EQ", 0, 0), C(Finite, "LN", 1000, 0), Inf("ANY", 0), Nan >>
    [] fn = "log2"     -> << C(MinNormal - 1, "ANY", 0, 0), C(OneB - 1, "LOG2", 1500, 0), C(OneB, "EQ", 0, 0), C(Finite, "LOG2", 1500, 0), Inf("ANY", 0), Nan >>
    [] fn = "log10"    -> << C(MinNormal - 1, "ANY", 0, 0), C(OneB - 1, "LOG10", 500, 0), C(OneB, "EQ", 0, 0), C(Finite, "LOG10", 500, 0), Inf("ANY", 0), Nan >>

Negative(fn) ==
  CASE fn = "sqrt"     -> << C(0, "POS", -60, 0), Inf("NAN", 0), Nan >>
    [] fn = "invsqrt"  -> << C(0, "ANY", 0, 0), Inf("NAN", 0), Nan >>
    [] fn = "exp"      -> << C(RatB(873, 10), "EXP", 25000, 0), C(RatB(874, 10), "NONNEG", -126, 20000000), Inf("NONNEG", -126), Nan >>
    [] fn \in {"ln", "log2", "log10"} -> << Inf("ANY", 0), Nan >>
    [] OTHER           -> Positive(fn)
Rows(fn, s) == IF s = 0 THEN Positive(fn) ELSE Negative(fn)

\* f(-x) = -f(x), f(-x) = f(x), a <= b => f(a) <= f(b) (>=), all exactly (bit for bit, any NaN for NaN), over the domain;
\* the quotient of the two functions (approximations themselves) up to rounding by a relative 2^-22
Odd == {"atan", "atan_norm"}
Even == {"cosh"}
Rising == {"sqrt"}
Symmetry(fn) == IF fn \in Odd THEN "odd" ELSE IF fn \in Even THEN "even" ELSE IF fn \in Rising THEN "rising" ELSE IF fn = "tan" THEN "quotient" ELSE "none"

Fns == <<"sin", "cos", "tan", "atan", "atan_norm", "asin", "acos", "sqrt", "invsqrt", "inv", "recip", "exp", "cosh", "ln", "log2", "log10">>
---------------------------------------------------------------------------
VARIABLES fn, sg, i, from           \* a walk over the rows of a function: row i starts at the bits from
vars == <<fn, sg, i, from>>
Row == Rows(fn, sg)[i]
Init == fn \in {Fns[k] : k \in 1..Len(Fns)} /\ sg \in {0, 1} /\ i = 1 /\ from = 0
Next == i < Len(Rows(fn, sg)) /\ i' = i + 1 /\ from' = Row.upto + 1 /\ UNCHANGED <<fn, sg>>
Spec == Init /\ [][Next]_vars

\* nothing overlaps or is missing: each row begins where the one before ended, and the last one ends at the last NaN
Covers == Row.upto >= from /\ (i = Len(Rows(fn, sg)) => Row.upto = Top)
\* NaN gives NaN, and no finite number of the domain gives it
NaNs == /\ (Row.upto > InfB <=> i = Len(Rows(fn, sg)))
        /\ (Row.upto > InfB => Row.kind = "NAN" /\ from = InfB + 1)
Domain == (Row.kind = "NAN" /\ from <= InfB) =>
  \/ fn \in {"sin", "cos", "tan"} /\ from = InfB
  \/ fn \in {"asin", "acos"} /\ from = OneB + 1
  \/ fn \in {"sqrt", "invsqrt"} /\ sg = 1 /\ from > 0
Symmetric == Symmetry(fn) \in {"odd", "even"} => Rows(fn, 0) = Rows(fn, 1)
\* the contracts of functions defined by one another are consistent:
\* tan allows what sin and cos allow (their errors a_s, a_c: |(s+a_s) c - (c+a_c) s| / |c + a_c| <= a (1 + |t|))
Implied == /\ Positive("tan")[1].a >= Positive("sin")[1].a /\ Positive("tan")[1].upto = Positive("sin")[1].upto
           /\ 2 * Positive("cosh")[1].a >= Positive("exp")[1].a    \* e^x / 2 is half of cosh at 0, and almost all of it at the end
           /\ Negative("exp")[1].a >= Positive("exp")[1].a
           /\ 1000 * Positive("log2")[2].a >= 1443 * Positive("ln")[2].a      \* log2(e) = 1.4427
           /\ 1000 * Positive("log10")[2].a >= 435 * Positive("ln")[2].a      \* log10(e) = 0.4343
           /\ 157 * Positive("atan_norm")[1].a <= 100 * Positive("atan")[1].a
---------------------------------------------------------------------------
AllRows == LET RowsOf(f, s) == [k \in 1..Len(Rows(f, s)) |->
                 [fn |-> f, s |-> s, lo |-> IF k = 1 THEN 0 ELSE Rows(f, s)[k-1].upto + 1, hi |-> Rows(f, s)[k].upto,
                  kind |-> Rows(f, s)[k].kind, a |-> Rows(f, s)[k].a, b |-> Rows(f, s)[k].b, sym |-> Symmetry(f)]]
               RECURSIVE Cat(_)
               Cat(k) == IF k > Len(Fns) THEN <<>> ELSE RowsOf(Fns[k], 0) \o RowsOf(Fns[k], 1) \o Cat(k + 1)
           IN Cat(1)
Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, AllRows)
=============================================================================
