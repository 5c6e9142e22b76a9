-------------------------------- MODULE Exact --------------------------------
(***************************************************************************)
(* What the functions of micromath that are algebraic (no transcendental   *)
(* function involved) may return, as relations between exact numbers: no   *)
(* rounding happens in any of these conditions.                            *)
(* A dyadic rational is [s |-> sign, n |-> natural, k |-> exponent],       *)
(* standing for (-1)^s * n * 2^k.                                          *)
(***************************************************************************)
EXTENDS Ieee
Dy(s, n, k) == [s |-> s, n |-> n, k |-> k]
Num(x) == Dy(x.s, Nat2Big(Signif(x.m)), Scale(x.m))          \* of a finite number
Whole(i) == IF i < 0 THEN Dy(1, Nat2Big(-i), 0) ELSE Dy(0, Nat2Big(i), 0)
One == Whole(1)
DNeg(a) == [a EXCEPT !.s = 1 - @]
DAbs(a) == [a EXCEPT !.s = 0]
DZero(a) == a.n = <<>>
DAdd(a, b) ==
  LET k == IF a.k < b.k THEN a.k ELSE b.k  u == Shl(a.n, a.k - k)  v == Shl(b.n, b.k - k)  c == BCmp(u, v) IN
  IF a.s = b.s THEN Dy(a.s, BAdd(u, v), k) ELSE IF c >= 0 THEN Dy(a.s, BSub(u, v), k) ELSE Dy(b.s, BSub(v, u), k)
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == Dy((a.s + b.s) % 2, BMul(a.n, b.n), a.k + b.k)
DTimes(a, i) == DMul(a, Whole(i))
DScale(a, k) == [a EXCEPT !.k = @ + k]
DSign(a) == IF a.n = <<>> THEN 0 ELSE IF a.s = 1 THEN -1 ELSE 1
DCmp(a, b) == DSign(DSub(a, b))
DLe(a, b) == DCmp(a, b) <= 0
DLt(a, b) == DCmp(a, b) < 0
DEq(a, b) == DCmp(a, b) = 0
DSq(a) == DMul(a, a)
\* Numbers that are 0 mod 1
DInt(a) == a.k >= 0 \/ DZero(a) \/ (a.k > -LB * Len(a.n) /\ (\A i \in 1..MinN((-a.k) \div LB, Len(a.n)) : a.n[i] = 0)
                                     /\ a.n[((-a.k) \div LB) + 1] % 2^((-a.k) % LB) = 0)
\* p/q of a
Part(a, p) == DTimes(a, p)
Million == 1000000
\* lo <= r <= hi, as ratios to t of the squares: (lo r)... with parts per million
RatioSq(r2, t2, lo, hi) == \* lo * t <= r <= hi * t (per million), of nonnegative r and t given by their squares
  /\ DLe(DMul(t2, DSq(Whole(lo))), DMul(r2, DSq(Whole(Million))))
  /\ DLe(DMul(r2, DSq(Whole(Million))), DMul(t2, DSq(Whole(hi))))
Within(a, t, ppm) == \* |a - t| <= ppm / 10^6
  DLe(DTimes(DAbs(DSub(a, t)), Million), Whole(ppm))
Normal(x) == IsFinite(x.m) /\ Expo(x.m) > 0
Finite(x) == IsFinite(x.m)
Less(x, y) == Compare(x, y) = -1
---------------------------------------------------------------------------
\* x.s and r.s are the bits of signs; equality of zeros of either sign is meant where the relations are on dyadic numbers
SpecialsKept(x, r, z) == IF Nan(x) THEN Nan(r) ELSE z
TruncIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN r = x ELSE
  /\ Finite(r) /\ DInt(Num(r)) /\ DLe(DAbs(Num(r)), DAbs(Num(x))) /\ DLt(DAbs(Num(x)), DAdd(DAbs(Num(r)), One))
  /\ (DZero(Num(r)) \/ r.s = x.s)
FractIs(x, r) == IF Nan(x) \/ Inf(x) THEN Nan(r) ELSE
  /\ Finite(r) /\ DLt(DAbs(Num(r)), One) /\ DInt(DSub(Num(x), Num(r))) /\ (DZero(Num(r)) \/ r.s = x.s)
FloorIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN r = x ELSE
  Finite(r) /\ DInt(Num(r)) /\ DLe(Num(r), Num(x)) /\ DLt(Num(x), DAdd(Num(r), One))
CeilIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN r = x ELSE
  Finite(r) /\ DInt(Num(r)) /\ DLe(Num(x), Num(r)) /\ DLt(DSub(Num(r), One), Num(x))
RoundIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN r = x ELSE
  /\ Finite(r) /\ DInt(Num(r))
  /\ LET c == DCmp(DScale(DAbs(DSub(Num(x), Num(r))), 1), One) IN
     c < 0 \/ (c = 0 /\ DLe(DAbs(Num(x)), DAbs(Num(r))))
\* C16
RemEuclidIs(x, y, r) ==
  IF Nan(x) \/ Nan(y) \/ Inf(x) \/ Zero(y) THEN Nan(r)
  ELSE IF Inf(y) THEN TRUE
  ELSE /\ Finite(r) /\ (r.s = 0 \/ Zero(r))
       /\ LET d == Scale(x.m) - Scale(y.m)  a == Signif(x.m)  b == Signif(y.m)
              rest == \* |x| modulo |y|
                IF d >= 0 THEN Dy(0, Nat2Big(ShlMod(a % b, d, b)), Scale(y.m))
                ELSE IF -d > P + 1 \/ b > a \div 2^(-d) THEN DAbs(Num(x)) ELSE Dy(0, Nat2Big(a % (b * 2^(-d))), Scale(x.m))
          IN IF x.s = 0 \/ DZero(rest) THEN DEq(Num(r), rest)
             ELSE LET w == DSub(DAbs(Num(y)), rest) IN Rounded(r.m, w.n, w.k, <<1>>)
\* q y <= x < q y + |y|
Quotient(x, y, q) == LET t == DSub(x, DMul(q, y)) IN DSign(t) >= 0 /\ DLt(t, DAbs(y))
\* is x/y within 2^-22 (relative) of an integer, next to the quotient q (which may be off by one)?
NearInteger(x, y, q) == \E i \in {-1, 0, 1} : LET n == DAdd(q, Whole(i)) IN
  ~DZero(n) /\ DLe(DAbs(DSub(x, DMul(n, y))), DScale(DAbs(x), -22))
RECURSIVE Twos(_)
Twos(i) == IF i = 0 \/ i % 2 = 1 THEN 0 ELSE 1 + Twos(i \div 2)
OddNum(x) == LET i == Signif(x.m)  t == Twos(i) IN Dy(x.s, Nat2Big(i \div 2^t), IF i = 0 THEN 200 ELSE Scale(x.m) + t)
DivEuclidIs(x, y, q) ==
  IF Finite(x) /\ Finite(y) /\ ~Zero(y) THEN
    LET u == OddNum(x)  v == OddNum(y)
        k == IF u.k < v.k THEN u.k ELSE v.k
        small == \/ (u.k - k <= P + 1 /\ v.k - k <= P + 1
                     /\ \A a \in {u, v} : BCmp(Shl(a.n, a.k - k), Shl(<<1>>, P + 1)) <= 0)
        near == DLt(DAbs(u), DScale(DAbs(v), 22))
    IN IF small \/ near THEN
         /\ Finite(q) /\ DInt(Num(q))
         /\ (Quotient(u, v, Num(q)) \/ (~small /\ NearInteger(u, v, Num(q)) /\ \E i \in {-1, 1} : Quotient(u, v, DAdd(Num(q), Whole(i)))))
       ELSE TRUE
  ELSE TRUE
\* C10
SqrtIs(x, r) == IF Nan(x) \/ (x.s = 1 /\ ~Zero(x)) THEN Nan(r) ELSE IF Inf(x) THEN r = x
  ELSE IF ~Normal(x) THEN Finite(r) /\ (r.s = 0 \/ Zero(r)) /\ DLt(Num(r), Dy(0, <<1>>, -59))
  ELSE Finite(r) /\ r.s = 0 /\ RatioSq(DSq(Num(r)), Num(x), 999990, 1061000)
Sized(x) == Finite(x) /\ ~Zero(x)
Large(x, lo, hi) == Finite(x) /\ DLe(Dy(0, <<1>>, lo), DAbs(Num(x))) /\ DLe(DAbs(Num(x)), Dy(0, <<1>>, hi))
Upto(x, hi) == Finite(x) /\ DLe(DAbs(Num(x)), Dy(0, <<1>>, hi))
RECURSIVE SumSq(_)
SumSq(xs) == IF xs = <<>> THEN Whole(0) ELSE DAdd(DSq(Num(xs[1])), SumSq(Tail(xs)))
\* the length of a vector of f32 components, the largest in [2^-60, 2^60]
LengthIs(xs, r) == (\A i \in 1..Len(xs) : Upto(xs[i], 60)) /\ (\E i \in 1..Len(xs) : Large(xs[i], -60, 60)) =>
  Finite(r) /\ r.s = 0 /\ RatioSq(DSq(Num(r)), SumSq(xs), 999990, 1061000)
HypotIs(x, y, r) == (Finite(x) /\ Finite(y) => ~Nan(r)) /\ LengthIs(<<x, y>>, r)
\* C11
InvIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN Zero(r)
  ELSE IF Normal(x) /\ Upto(x, 126) THEN Finite(r) /\ Within(DMul(Num(x), Num(r)), One, 126000)
  ELSE IF Normal(x) THEN Finite(r) /\ DLe(DAbs(Num(r)), Dy(0, <<1>>, -125)) /\ (Zero(r) \/ r.s = x.s) ELSE TRUE
Limit830 == Dy(0, BMul(OfDigits(<<8, 3>>, 2), BPow(Nat2Big(10), 36)), 0)       \* 8.3e37
RecipIs(x, r) == IF Nan(x) THEN Nan(r) ELSE IF Inf(x) THEN Zero(r) ELSE IF Zero(x) THEN Inf(r)
  ELSE IF Normal(x) /\ DLe(DAbs(Num(x)), Limit830) THEN Finite(r) /\ Within(DMul(Num(x), Num(r)), One, 10)
  ELSE IF Normal(x) THEN Finite(r) /\ DLe(DAbs(Num(r)), Dy(0, <<1>>, -125)) /\ (Zero(r) \/ r.s = x.s) ELSE TRUE
InvSqrtIs(x, r) == IF Nan(x) \/ (x.s = 1 /\ ~Zero(x)) THEN Nan(r)
  ELSE IF Inf(x) THEN Finite(r) /\ r.s = 0 /\ ~Zero(r) /\ DLe(Num(r), Dy(0, <<1>>, -63))
  ELSE IF Normal(x) THEN Finite(r) /\ r.s = 0 /\ RatioSq(DMul(DSq(Num(r)), Num(x)), One, 965000, 1035000) ELSE TRUE
\* C15: the error e^t - 1 of t = (2 |n| + 8) * 2^-24 <= 1 is at most t + t^2
PowiIs(x, n, r) ==
  LET m == IF n < 0 THEN -n ELSE n
      t == Dy(0, Nat2Big(2 * m + 8), -24)
      f == DAdd(One, DAdd(t, DSq(t)))                       \* the factor
      p == Dy(0, BPow(Nat2Big(Signif(x.m)), m), m * Scale(x.m))   \* |x|^m
      a == DAbs(Num(r))
      sg == IF m % 2 = 1 THEN x.s ELSE 0
      top == DScale(One, 128)  bottom == DScale(One, -126)
      \* b <= c * f, both divided if n is negative
      Over == IF n < 0 THEN DLe(DMul(p, top), f) ELSE DLe(top, DMul(p, f))          \* f * x^n >= 2^128
      Under == IF n < 0 THEN DLe(One, DMul(DMul(p, bottom), f)) ELSE DLe(p, DMul(bottom, f))
      Close == IF n < 0 THEN DLe(DMul(a, p), f) /\ DLe(One, DMul(DMul(a, p), f)) ELSE DLe(a, DMul(p, f)) /\ DLe(p, DMul(a, f))
  IN IF n = 0 THEN Is(r, 0, OneBits) ELSE IF Nan(x) THEN Nan(r) ELSE IF Inf(x) \/ Zero(x) THEN TRUE
     ELSE /\ ~Nan(r) /\ (r.s = sg \/ Zero(r))
          /\ (IF Inf(r) THEN Over ELSE IF Close THEN TRUE ELSE Under /\ DLe(a, DMul(bottom, f)))
\* C24: r = x / |v| within the bounds of the length of v
Call(e) ==
  CASE e.fn = "trunc" -> TruncIs(e.x, e.r) [] e.fn = "fract" -> FractIs(e.x, e.r) [] e.fn = "floor" -> FloorIs(e.x, e.r)
    [] e.fn = "ceil" -> CeilIs(e.x, e.r) [] e.fn = "round" -> RoundIs(e.x, e.r)
    [] e.fn = "sqrt" -> SqrtIs(e.x, e.r) [] e.fn = "inv" -> InvIs(e.x, e.r) [] e.fn = "recip" -> RecipIs(e.x, e.r)
    [] e.fn = "invsqrt" -> InvSqrtIs(e.x, e.r)
    [] e.fn = "hypot" -> HypotIs(e.x, e.y, e.r) [] e.fn = "rem_euclid" -> RemEuclidIs(e.x, e.y, e.r) [] e.fn = "div_euclid" -> DivEuclidIs(e.x, e.y, e.r)
    [] e.fn = "powi" -> PowiIs(e.x, e.n, e.r)
=============================================================================
