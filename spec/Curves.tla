------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The elementary functions in fixed point with W binary places (a multiple *)
(* of LB), on naturals of any size: sine, cosine, exponential and          *)
(* logarithm of any f32, by reduction and power series, with an error of   *)
(* less than 2^-(W-10) (for sine and cosine, 2^-(W-10) |x|).  Then what    *)
(* micromath's approximations of them may return, as relations that need   *)
(* nothing else: the angle of (x, y) is r if the point (cos r, sin r) has  *)
(* its direction, and so on.  Tolerances are in units of 10^-7, those of   *)
(* the rows of Contract and Contract2.                                     *)
(***************************************************************************)
EXTENDS Exact, TLC
CONSTANT W
ASSUME Places == LB = 12 /\ W % LB = 0 /\ W <= 120
---------------------------------------------------------------------------
\* numbers in fixed point are dyadic numbers with the exponent -W; digits below are dropped (towards zero)
Drop(n, q) == IF q >= Len(n) THEN <<>> ELSE SubSeq(n, q + 1, Len(n))
Fixed(a) ==
  IF a.k >= -W THEN Dy(a.s, Shl(a.n, a.k + W), -W)
  ELSE LET d == -W - a.k  q == d \div LB  r == d % LB IN
       Dy(a.s, IF r = 0 THEN Drop(a.n, q) ELSE Drop(Shl(a.n, LB - r), q + 1), -W)
Times(a, b) == Dy((a.s + b.s) % 2, Drop(BMul(a.n, b.n), W \div LB), -W)
\* division by i <= 2^18
RECURSIVE Long(_, _, _, _, _)
Long(n, j, rest, i, q) == IF j = 0 THEN Trim(q) ELSE
  LET t == rest * Base + n[j] IN Long(n, j - 1, t % i, i, <<t \div i>> \o q)
DivBy(a, i) == [a EXCEPT !.n = Long(@, Len(@), 0, i, <<>>)]
Unit == Dy(0, [i \in 1..(W \div LB + 1) |-> IF i <= W \div LB THEN 0 ELSE 1], -W)
\* 1/a for 1/2 <= a < 3, by Newton's iteration
RECURSIVE Newton(_, _, _)
Newton(a, y, k) == IF k = 0 THEN y ELSE Newton(a, Times(y, DSub(Fixed(Whole(2)), Times(a, y))), k - 1)
Recip(a) == Newton(a, Fixed(Dy(0, <<1>>, -1)), 8)
\* the integer part of the absolute value of a, which is below 2^30
RECURSIVE Value(_)
Value(n) == IF n = <<>> THEN 0 ELSE n[1] + Base * Value(Tail(n))
Floor(a) == Value(Drop(a.n, W \div LB))
Nearest(a) == Floor(DAdd(DAbs(a), Fixed(Dy(0, <<1>>, -1))))
---------------------------------------------------------------------------
\* pi/2, 2/pi, ln 2, ln 10 and log2 e with 120 places (CurvesMC checks them against series; TLC would
\* evaluate definitions that use recursive operators again and again)
Digits(n) == Fixed(Dy(0, n, -120))
Quarter == Digits(<<2105, 27, 1303, 2252, 2441, 2118, 721, 1092, 4021, 2337, 1>>)
HalfPiBy == Digits(<<1245, 3923, 2001, 629, 2556, 338, 3652, 1764, 2435, 2607>>)
Ln2 == Digits(<<758, 63, 920, 3643, 3017, 1946, 463, 3965, 535, 2839>>)
Ln10 == Digits(<<3112, 180, 2222, 1461, 2985, 2821, 2722, 1898, 1591, 1239, 2>>)
Ln2By == Digits(<<2685, 3363, 3488, 255, 1917, 3607, 2095, 1323, 1142, 1813, 1>>)
---------------------------------------------------------------------------
\* power series of e^t (z = 0), or of cosine and sine (z = 1) as a pair of sums of every other term
RECURSIVE Series(_, _, _, _, _, _)
Series(t, x, j, even, odd, turn) == \* t = x^(j-1) / (j-1)!, with the sign of the series
  IF DZero(t) THEN [even |-> even, odd |-> odd]
  ELSE LET isOdd == j % 2 = 0
           next == DivBy(Times(t, x), j)
           signed == IF turn /\ isOdd THEN DNeg(next) ELSE next       \* 1, x, -x^2/2, -x^3/6, x^4/24, ...
       IN Series(signed, x, j + 1, IF isOdd THEN even ELSE DAdd(even, t), IF isOdd THEN DAdd(odd, t) ELSE odd, turn)
SeriesAt(x, turn) == Series(Unit, x, 1, Fixed(Whole(0)), Fixed(Whole(0)), turn)
\* the point (cos x, sin x), for |x| <= 2^24 in fixed point
Turn(x) ==
  LET q == Nearest(Times(x, HalfPiBy))
      p == SeriesAt(DSub(DAbs(x), DTimes(Quarter, q)), TRUE)
      c == CASE q % 4 = 0 -> p.even [] q % 4 = 1 -> DNeg(p.odd) [] q % 4 = 2 -> DNeg(p.even) [] OTHER -> p.odd
      s == CASE q % 4 = 0 -> p.odd [] q % 4 = 1 -> p.even [] q % 4 = 2 -> DNeg(p.odd) [] OTHER -> DNeg(p.even)
  IN [c |-> c, s |-> IF x.s = 1 THEN DNeg(s) ELSE s]
\* e^x, as a dyadic number with W places relative to it, |x| <= 2^20 in fixed point
Exp(x) ==
  LET q == Nearest(Times(x, Ln2By))
      p == SeriesAt(DSub(x, [DTimes(Ln2, q) EXCEPT !.s = x.s]), FALSE)
  IN DScale(DAdd(p.even, p.odd), IF x.s = 1 THEN -q ELSE q)
\* ln x of a positive finite number (bits m): 2^e (1 + u) / (1 - u)
RECURSIVE OddPowers(_, _, _)
OddPowers(t, u2, j) == IF DZero(t) THEN t ELSE DAdd(DivBy(t, j), OddPowers(Times(t, u2), u2, j + 2))
RECURSIVE Bits(_)
Bits(i) == IF i = 0 THEN 0 ELSE 1 + Bits(i \div 2)
Ln(m) ==
  LET i == Signif(m)  w == Bits(i)
      low == 10 * (i \div 2^MaxN(w - 12, 0)) < 14 * 2^(MinN(w, 12) - 1)          \* is i / 2^(w-1) < 1.4?
      e == IF low THEN w - 1 ELSE w                                   \* i * 2^-e is in [0.7, 1.4)
      y == Fixed(Dy(0, Nat2Big(i), -e))
      u == Times(DSub(y, Unit), Recip(DAdd(y, Unit)))
  IN DAdd(Fixed(DScale(OddPowers(u, Times(u, u), 1), 1)), DTimes(Ln2, e + Scale(m)))
---------------------------------------------------------------------------
\* what may be returned: x, y arguments, r the result
Tol(a) == DivBy(Fixed(Whole(a)), 100000)                \* 100 a 10^-7, to keep the divisor small
Tolerance(a) == TLCEval(DivBy(Tol(a), 100))
F(x) == Fixed(Num(x))
Near(r, t, a) == DLe(DAbs(DSub(r, t)), a)
SinIs(x, r, a, more) == Near(Num(r), Turn(F(x)).s, DAdd(Tolerance(a), more))
CosIs(x, r, a, more) == Near(Num(r), Turn(F(x)).c, DAdd(Tolerance(a), more))
InUnit(r) == DLe(DAbs(Num(r)), DAdd(One, Dy(0, <<1>>, -20)))
TanIs(x, r, a) == LET p == Turn(F(x)) IN
  IF Inf(r) THEN DLe(DAbs(p.c), Tolerance(a))
  ELSE Near(DMul(Num(r), p.c), p.s, DMul(Tolerance(a), DAdd(One, DAbs(Num(r)))))
\* the angle r (in fixed point) is that of the point (x, y), dyadic numbers
AngleIs(r, x, y, a) == LET p == Turn(r)  cross == DSub(DMul(p.c, y), DMul(p.s, x)) IN
  /\ DSign(DAdd(DMul(p.c, x), DMul(p.s, y))) > 0
  /\ DLe(DSq(cross), DMul(DSq(a), DAdd(DSq(x), DSq(y))))
InTurns(r) == Times(F(r), Quarter)                      \* r quarter turns, in radians
AtanIs(x, r, a) == LET t == Tolerance(a) IN
  /\ DLe(DAbs(Num(r)), DAdd(Quarter, t))
  /\ IF Inf(x) THEN Near(F(r), [Quarter EXCEPT !.s = x.s], t) ELSE AngleIs(F(r), One, Num(x), t)
AtanNIs(x, r, a) == LET t == Times(Tolerance(a), Quarter) IN
  /\ DLe(DAbs(Num(r)), One)
  /\ IF Inf(x) THEN Near(InTurns(r), [Quarter EXCEPT !.s = x.s], t) ELSE AngleIs(InTurns(r), One, Num(x), t)
Rim == Dy(0, <<1>>, -20)                                \* rounding of pi/2 and pi, and of the numbers next to them
Clip(a, lo, hi) == IF DLt(a, lo) THEN lo ELSE IF DLt(hi, a) THEN hi ELSE a
AsinIs(x, r, a) == LET t == Tolerance(a)  h == Quarter IN
  /\ DLe(DAbs(Num(r)), DAdd(h, Rim))
  /\ DLe(Turn(Clip(DSub(F(r), t), DNeg(h), h)).s, Num(x))
  /\ DLe(Num(x), DAdd(Turn(Clip(DAdd(F(r), t), DNeg(h), h)).s, Dy(0, <<1>>, 20 - W)))
AcosIs(x, r, a) == LET t == Tolerance(a)  z == Fixed(Whole(0))  pi == DTimes(Quarter, 2)  eps == Dy(0, <<1>>, 20 - W) IN
  /\ DLe(DNeg(Rim), Num(r)) /\ DLe(Num(r), DAdd(pi, Rim))
  /\ DLe(Num(x), DAdd(Turn(Clip(DSub(F(r), t), z, pi)).c, eps))
  /\ DLe(Turn(Clip(DAdd(F(r), t), z, pi)).c, DAdd(Num(x), eps))
Relative(r, t, a) == DLe(DAbs(DSub(r, t)), DMul(Tolerance(a), t))
ExpIs(x, r, a) == Relative(Num(r), Exp(F(x)), a)
Cosh(x) == DScale(DAdd(Exp(x), Exp(DNeg(x))), -1)
CoshIs(x, r, a) == Relative(Num(r), Cosh(F(x)), a)
LnIs(x, r, a) == Near(Num(r), Ln(x.m), Tolerance(a))
\* r * b is ln x, within a * b
LogIs(x, r, b, a) == Near(DMul(Num(r), b), Ln(x.m), DMul(Tolerance(a), b))
\* |r - t| <= (1 + |t|) a / |ln b| + 10^-6 |t|, t = ln x / ln b, multiplied by (ln b)^2
LogBIs(x, b, r, a) == LET lx == Ln(x.m)  lb == DAbs(Ln(b.m))  sb == Ln(b.m).s IN
  LET d == DAbs(DSub(DMul(Num(r), [lb EXCEPT !.s = sb]), lx)) IN
  DLe(Tolerance(100000), lb) =>
    /\ Finite(r)
    /\ DLe(DMul(d, lb), DAdd(DMul(Tolerance(a), DAdd(lb, DAbs(lx))), DMul(Tolerance(10), DMul(DAbs(lx), lb))))
\* |ln r - n ln x| <= a + b |n|; beyond the ends of the range infinity, or almost nothing
LnMax == TLCEval(Ln(2139095039))
TinyBits == 9277110                                     \* 1.3e-38
LnTiny == TLCEval(Ln(TinyBits))
PowfIs(x, y, r, a, b) ==
  IF Zero(y) THEN Is(r, 0, OneBits)
  ELSE LET t == DMul(Num(y), Ln(x.m))
           tol == DAdd(Tolerance(a), DMul(Tolerance(b), DAbs(Num(y))))
       IN ~Nan(r) /\
          (IF Inf(r) THEN r.s = 0 /\ DLt(LnMax, DAdd(t, tol))
           ELSE \/ (r.s = 0 /\ ~Zero(r) /\ Near(Ln(r.m), t, tol))
                \/ ((r.s = 0 \/ Zero(r)) /\ r.m <= TinyBits /\ DLt(DSub(t, tol), LnTiny)))
=============================================================================
