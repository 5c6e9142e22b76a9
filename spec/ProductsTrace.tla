---------------------------- MODULE ProductsTrace ----------------------------
(***************************************************************************)
(* Recorded products and lengths of vectors and quaternions of binary32    *)
(* components of all magnitudes.  Products are compared with the exact     *)
(* values of the polynomials of Poly, in which they may differ by the      *)
(* rounding of terms and of sums (in any order); lengths with exact sums   *)
(* of squares.                                                             *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, IOUtils
VARIABLE l
PL == INSTANCE Poly WITH n <- l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Poly(name) ==
  CASE name = "dot2" -> <<PL!Dot(PL!a2, PL!b2)>> [] name = "perp" -> <<PL!Perp(PL!a2, PL!b2)>> [] name = "cross2" -> PL!Cross(PL!Lift(PL!a2), PL!Lift(PL!b2))
    [] name = "magsq2" -> <<PL!Dot(PL!a2, PL!a2)>> [] name = "dot3" -> <<PL!Dot(PL!a, PL!b)>> [] name = "cross3" -> PL!Cross(PL!a, PL!b)
    [] name = "magsq3" -> <<PL!Dot(PL!a, PL!a)>>
    [] name = "qmul" -> PL!HMul(PL!p, PL!q) [] name = "qdot" -> <<PL!Dot(PL!p, PL!q)>> [] name = "norm" -> <<PL!Norm(PL!p)>> [] name = "rotate" -> PL!Rotate(PL!q, PL!a)
Names == {"dot2", "perp", "cross2", "magsq2", "dot3", "cross3", "magsq3", "qmul", "qdot", "norm", "rotate"}
Polys == [name \in Names |-> Poly(name)]
Coef(i) == Whole(i)
RECURSIVE Monomial(_, _, _)
Monomial(m, x, i) == IF i = 0 THEN One ELSE DMul(Monomial(m, x, i - 1), Num(x[m[i]]))
RECURSIVE Sum(_, _, _, _)
\* <<value, sum of magnitudes of the terms>>
Sum(F, D, x, z) ==
  IF D = {} THEN z
  ELSE LET m == CHOOSE m \in D : TRUE  v == DMul(Coef(F[m]), Monomial(m, x, Len(m))) IN Sum(F, D \ {m}, x, <<DAdd(z[1], v), DAdd(z[2], DAbs(v))>>)
Degree(F) == LET S == {Len(m) : m \in DOMAIN F} IN CHOOSE d \in S : \A c \in S : c <= d
NearIs(F, x, r) ==
  IF DOMAIN F = {} THEN Zero(r)
  ELSE LET z == Sum(F, DOMAIN F, x, <<Whole(0), Whole(0)>>)
           k == PL!Cardinality(DOMAIN F) + Degree(F) + 1
       IN IF DLe(Dy(0, <<1>>, 127), z[2]) THEN TRUE          \* terms may overflow
          ELSE Finite(r) /\ DLe(DAbs(DSub(Num(r), z[1])), DAdd(DScale(DTimes(z[2], k), -24), Dy(0, Nat2Big(k + 2), -149)))
PolyIs(name, x, r) == LET F == Polys[name] IN Len(r) = Len(F) /\ \A i \in 1..Len(r) : NearIs(F[i], x, r[i])

Ranged(xs, lo, hi) == (\A i \in 1..Len(xs) : Upto(xs[i], hi)) /\ (\E i \in 1..Len(xs) : Large(xs[i], lo, hi))
Tiny == Dy(0, <<1>>, -143)
\* r_i * m = x_i up to rounding, and the length of r
NormalizedIs(xs, m, r) == Ranged(xs, -60, 60) =>
  /\ LengthIs(xs, m)
  /\ \A i \in 1..Len(r) : Finite(r[i]) /\ DLe(DAbs(DSub(DMul(Num(r[i]), Num(m)), Num(xs[i]))), DAdd(DScale(DAbs(Num(xs[i])), -22), DMul(Tiny, Num(m))))
  /\ RatioSq(SumSq(r), One, 940000, 1001000)
\* r is xs times one positive factor, up to rounding (all ratios agree with that of the largest component)
Along(xs, r) ==
  LET j == CHOOSE j \in 1..Len(xs) : \A i \in 1..Len(xs) : xs[i].m <= xs[j].m IN
  /\ r[j].s = xs[j].s /\ ~Zero(r[j])
  /\ \A i \in 1..Len(r) : LET u == DMul(Num(r[i]), Num(xs[j]))  v == DMul(Num(r[j]), Num(xs[i])) IN
       DLe(DAbs(DSub(u, v)), DAdd(DScale(DAdd(DAbs(u), DAbs(v)), -21), DMul(Tiny, DAbs(Num(xs[j])))))
Step(e) ==
  CASE e.fn \in Names -> PolyIs(e.fn, e.x, e.r)
    [] e.fn = "length" -> LengthIs(e.x, e.r)
    [] e.fn = "distance" -> /\ \A i \in 1..Len(e.x) : SubIs(e.x[i], e.y[i], e.d[i])
                            /\ LengthIs(e.d, e.r) /\ e.back = e.r
    [] e.fn = "normalized" -> NormalizedIs(e.x, e.m, e.r)
    [] e.fn = "qlength" -> Ranged(e.x, -30, 30) => LengthIs(e.x, e.r)
    [] e.fn = "qnormalize" -> Ranged(e.x, -30, 30) => Along(e.x, e.r) /\ RatioSq(SumSq(e.r), One, 965000, 1035000)
    \* |inv| * |q| in 1 +- 12.6%
    [] e.fn = "qinv" -> Ranged(e.x, -30, 30) =>
         /\ Along(<<e.x[1], Minus(e.x[2]), Minus(e.x[3]), Minus(e.x[4])>>, e.r)
         /\ RatioSq(DMul(SumSq(e.r), SumSq(e.x)), One, 874000, 1126000)
Init == l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
