------------------------------- MODULE Samples -------------------------------
(***************************************************************************)
(* Statistics of floating point samples of any magnitude, exactly: how far *)
(* a mean, variance and standard deviation may be from the exact ones, if  *)
(* sums and deviations are rounded (any order of the sums is allowed), and *)
(* which samples are certainly near enough to the mean to be kept, or too  *)
(* far.  All is in dyadic rationals: instead of means, n times the mean.   *)
(***************************************************************************)
EXTENDS Exact, TLC
\* rounding: relative 2^-(P+1), absolute (half of the smallest number)
Ulp(a, i) == DScale(DTimes(a, i), -(P + 1))
Tiny(i) == Dy(0, Nat2Big(i), 1 - Bias - P - 1)
Plus1(a) == DTimes(a, 101)                \* for bounds to the first order in the rounding: 1 percent more (of 100 a)
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN Whole(0) ELSE DAdd(Total(f, n - 1), f[n])
RECURSIVE Largest(_, _)
Largest(xs, n) == IF n = 0 THEN 0 ELSE MaxN(Largest(xs, n - 1), xs[n].m)
RECURSIVE LowestUnit(_, _)
\* the smallest weight of a set bit of the samples
LowestUnit(xs, n) == IF n = 0 THEN 1000 ELSE
  LET rest == LowestUnit(xs, n - 1)  i == Signif(xs[n].m) IN IF i = 0 THEN rest ELSE MinN(rest, Scale(xs[n].m) + Twos(i))
RECURSIVE InUnits(_, _, _)
\* the sum in units, where it is representable
InUnits(xs, n, unit) == IF n = 0 THEN 0 ELSE
  LET i == Signif(xs[n].m)  k == Scale(xs[n].m) - unit  v == IF i = 0 THEN 0 ELSE IF k >= 0 THEN i * 2^k ELSE i \div 2^(-k) IN
  InUnits(xs, n - 1, unit) + (IF xs[n].s = 1 THEN -v ELSE v)
\* everything that is needed of the samples xs (finite numbers)
Summary(xs) ==
  LET n == Len(xs)
      v == TLCEval([i \in 1..n |-> Num(xs[i])])
      sum == Total(v, n)                                              \* n * mean
      mag == Total([i \in 1..n |-> DAbs(v[i])], n)
      \* 100 n times the error of the mean
      merr == DAdd(Plus1(Ulp(mag, n + 1)), DTimes(Tiny(n), 200))
      d == TLCEval([i \in 1..n |-> DAbs(DSub(DTimes(v[i], n), sum))])          \* n * |deviation|
      e == TLCEval([i \in 1..n |-> DAdd(merr, Ulp(DAdd(DTimes(d[i], 100), merr), 1))])   \* 100 n times the error of it
      ss == Total([i \in 1..n |-> DSq(d[i])], n)                      \* n^2 * sum of squares
      \* 10^4 n^2 times the error of the sum of squares
      serr == Total([i \in 1..n |->
        LET h == DTimes(d[i], 100)  all == DSq(DAdd(h, e[i])) IN
        DAdd(DAdd(DScale(DMul(h, e[i]), 1), DSq(e[i])), DAdd(Ulp(all, n + 3), DTimes(Tiny(2 * n * n), 10000)))], n)
      unit == LowestUnit(xs, n)
      exact == DZero(mag) \/ DLe(mag, Dy(0, <<1>>, unit + P + 1))
  IN [n |-> n, v |-> v, sum |-> sum, mag |-> mag, merr |-> merr, d |-> d, ss |-> ss,
      serr |-> Plus1(serr),                                           \* 10^6 n^2 times it
      exact |-> exact,                                                \* sums of the samples, in any order, are representable
      whole |-> exact /\ InUnits(xs, n, unit) % n = 0,                 \* and so is their mean
      \* sums of squares do not overflow
      fits |-> Expo(Largest(xs, n)) <= Bias + (Bias \div 2) - 2 - n \div 8]
\* r is the mean
MeanIs(t, r) ==
  LET rn == DTimes(Num(r), t.n) IN
  /\ Finite(r)
  /\ DLe(DTimes(DAbs(DSub(rn, t.sum)), 100), t.merr)
  \* exact if the sums are, and the quotient is a multiple of the same unit
  /\ (t.whole => DEq(rn, t.sum))
\* v is the variance: v * (n - 1) * n^2 against ss
VarianceIs(t, v) ==
  LET w == DTimes(Num(v), t.n * t.n * (t.n - 1)) IN
  /\ Finite(v) /\ (v.s = 0 \/ Zero(v))
  /\ DLe(DTimes(DAbs(DSub(w, t.ss)), Million),
         DAdd(t.serr, DTimes(DAdd(Ulp(t.ss, 2), DTimes(Tiny(2), t.n * t.n * t.n)), Million)))
\* bounds of the variance (10^6 n^2 (n-1) times it) from above and below, as the sums are rounded
High(t) == DAdd(DTimes(t.ss, Million), t.serr)
Low(t) == LET d == DSub(DTimes(t.ss, Million), t.serr) IN IF DSign(d) < 0 THEN Whole(0) ELSE d
\* c is the standard deviation: the root within 6.1 percent (and 2^-62)
StdDevIs(t, c) ==
  LET w == t.n * t.n * (t.n - 1)
      q(a) == DTimes(DTimes(DSq(a), w), Million)                      \* to be compared with Low and High
      less == DSub(Num(c), Dy(0, <<1>>, -(Bias \div 2) + 1)) IN
  /\ Finite(c) /\ (c.s = 0 \/ Zero(c))
  /\ DLe(DTimes(Low(t), 9998), DTimes(q(Num(c)), 10000))
  /\ (DSign(less) <= 0 \/ DLe(DTimes(q(less), 10000), DTimes(High(t), 11258)))
---------------------------------------------------------------------------
\* Trimming at the threshold z.  Slack: 10^6 n times the error of the distance from the mean
Slack(t, i) == DAdd(DAdd(DTimes(t.merr, 10000), DTimes(t.d[i], 100)), DTimes(Tiny(4 * t.n), Million))
Far(t, i) == DSub(DTimes(t.d[i], Million), Slack(t, i))
Close(t, i) == DAdd(DTimes(t.d[i], Million), Slack(t, i))
Positive(z) == ~Nan(z) /\ z.s = 0 /\ ~Zero(z)
\* (n close)^2 (n - 1) < z^2 (n^2 s^2 (n-1))
Inside(t, i, z) ==
  /\ Positive(z)
  /\ (Inf(z) \/ LET sq == DTimes(DSq(Close(t, i)), t.n - 1) IN DLt(sq, DTimes(DMul(DSq(Num(z)), Low(t)), Million)))
Outside(t, i, z) ==
  \/ ~Positive(z)
  \/ /\ Finite(z) /\ DSign(Far(t, i)) > 0
     /\ LET sq == DTimes(DSq(Far(t, i)), t.n - 1) IN
        DLt(DTimes(DMul(DSq(Num(z)), High(t)), 1127844), sq)         \* 1.062^2
\* the standard deviation is at least 2^-40
Spread(t) == DLe(Dy(0, Nat2Big(t.n * t.n * (t.n - 1)), -80), t.ss)
Kept(t, i, z) == \* certainly
  IF DZero(t.ss) THEN Positive(z) /\ (t.exact \/ Inf(z) \/ DLe(Whole(1001), DTimes(Num(z), 1000))) ELSE Spread(t) /\ Inside(t, i, z)
Dropped(t, i, z) == \* certainly
  IF DZero(t.ss) \/ ~Spread(t) THEN ~Positive(z) ELSE Outside(t, i, z)
=============================================================================
