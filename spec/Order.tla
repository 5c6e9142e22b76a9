------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* The shape of the functions: on which numbers they rise or fall, which   *)
(* are odd or even, and where they have no jumps.  Numbers are given by    *)
(* their keys: the magnitude bits, negative for negative numbers, so that  *)
(* keys are ordered as the numbers are, and neighbours differ by 1.        *)
(*   rise, fall: for x < y, f(y) is not below (above) f(x)                 *)
(*   odd, even:  f(-x) = -f(x), f(-x) = f(x)                               *)
(*   step:       f(x) and f(y) are close for neighbours x and y            *)
(* with an excess of at most 2^-rel of f(y), or 2^-abs (0: no excess).     *)
(* Functions that are odd or even exactly have no shapes on the negative   *)
(* numbers: OrderMC derives them.                                          *)
(***************************************************************************)
EXTENDS Float
\* bits of v / 2^sh, for natural numbers v < 2^(P+1)
RECURSIVE Lg(_)
Lg(v) == IF v < 2 THEN 0 ELSE 1 + Lg(v \div 2)
Bits(v, sh) == IF v = 0 THEN 0 ELSE LET e == Lg(v) IN (Bias + e - sh) * 2^P + (v - 2^e) * 2^(P - e)
One == Bits(1, 0)
Tiny == 2^P                     \* the smallest normal number
Most == InfBits - 1
Shape(f, kind, a, b, rel, abs) == [fn |-> f, kind |-> kind, from |-> a, to |-> b, rel |-> rel, abs |-> abs]
Both(f, kind, b, rel, abs) == Shape(f, kind, -b, b, rel, abs)
Orders ==
  { Both(f, "rise", InfBits, 0, 0) : f \in {"floor", "ceil"} } \cup
  { Shape(f, "rise", 0, InfBits, 0, 0) : f \in {"sqrt", "round", "trunc"} } \cup
  { Shape("invsqrt", "fall", 0, InfBits, 14, 0), Shape("inv", "fall", 0, InfBits, 14, 0), Shape("recip", "fall", Tiny, InfBits, 14, 0),
    Shape("atan", "rise", 0, InfBits, 14, 0), Shape("atan_norm", "rise", 0, InfBits, 14, 0), Shape("asin", "rise", 0, One, 14, 0),
    Both("acos", "fall", One, 0, 14), Both("exp", "rise", InfBits, 14, 0), Shape("cosh", "rise", 0, InfBits, 14, 0),
    Both("sin", "rise", Bits(25, 4), 0, 14), Shape("cos", "fall", 0, Bits(25, 3), 0, 14), Both("tan", "rise", Bits(25, 4), 14, 0) } \cup
  { Shape(f, "rise", Tiny, Most, 0, 14) : f \in {"ln", "log2", "log10"} }
Symmetries ==
  { Shape(f, "odd", 0, InfBits, 0, 0) : f \in {"round", "trunc", "signum", "inv", "recip", "atan", "atan_norm"} } \cup
  { Shape("fract", "odd", 0, Most, 0, 0), Shape("asin", "odd", 0, One, 0, 0), Shape("abs", "even", 0, InfBits, 0, 0), Shape("cosh", "even", 0, InfBits, 0, 0),
    Shape("sin", "odd", 0, Bits(8, 0), 0, 14), Shape("cos", "even", 0, Bits(8, 0), 0, 14), Shape("tan", "odd", 0, One, 0, 14),
    Shape("sin", "odd", 0, Bits(1000, 0), 0, 11), Shape("cos", "even", 0, Bits(1000, 0), 0, 11) }
Steps ==
  { Shape(f, "step", Tiny, Most, 14, 0) : f \in {"sqrt", "invsqrt"} } \cup
  { Shape(f, "step", Tiny, Bits(1, -125), 14, 0) : f \in {"inv", "recip"} } \cup
  { Shape("atan", "step", 0, Most, 0, 14), Shape("atan_norm", "step", 0, Most, 0, 14), Shape("asin", "step", 0, One, 0, 10), Both("acos", "step", One, 0, 10),
    Shape("exp", "step", -Bits(87, 0), Bits(177, 1), 7, 0), Shape("cosh", "step", 0, Bits(87, 0), 7, 0),
    Both("sin", "step", Bits(1000, 0), 0, 11), Both("cos", "step", Bits(1000, 0), 0, 11), Both("tan", "step", One, 0, 14) } \cup
  { Shape(f, "step", Tiny, Most, 0, 11) : f \in {"ln", "log2", "log10"} }
Shapes == Orders \cup Symmetries \cup Steps
WellFormed == \A r \in Shapes : /\ r.from <= r.to /\ -InfBits <= r.from /\ r.to <= InfBits /\ {r.rel, r.abs} \subseteq 0..14
                               /\ r.kind \in {"odd", "even"} => r.from = 0
=============================================================================
