------------------------------- MODULE ExactMC -------------------------------
(***************************************************************************)
(* The relations of Exact on all (pairs of) numbers of a small format: the *)
(* exact functions have one value, which has the laws that it is to have   *)
(* in plain integers, and the approximated ones allow the true values.     *)
(***************************************************************************)
EXTENDS Exact, TLC, FiniteSets
VARIABLES x, y
vars == <<x, y>>
Numbers == [s : {0, 1}, m : 0..(InfBits + 1)]
Finites == {r \in Numbers : Finite(r)}
Unit == 2^(Bias + P - 1)
Val(a) == (IF a.s = 1 THEN -1 ELSE 1) * Signif(a.m) * 2^(Scale(a.m) + Bias + P - 1)
AbsV(v) == IF v < 0 THEN -v ELSE v
None == [s |-> 0, m |-> InfBits + 2]
Init == x = None /\ y = None
Next == \/ x = None /\ x' \in Numbers /\ UNCHANGED y
        \/ x # None /\ y = None /\ y' \in Numbers /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Singly == x # None /\ y = None
Pair == y # None
Values(S) == {Val(r) : r \in S}

\* dyadic numbers are the integers they stand for
Dyadic ==
  /\ Singly /\ Finite(x) => DInt(Num(x)) = (Val(x) % Unit = 0)
  /\ Pair /\ Finite(x) /\ Finite(y) => /\ DCmp(Num(x), Num(y)) = (IF Val(x) < Val(y) THEN -1 ELSE IF Val(x) > Val(y) THEN 1 ELSE 0)
                                       /\ DInt(DAdd(Num(x), Num(y))) = ((Val(x) + Val(y)) % Unit = 0)
                                       /\ DInt(DMul(Num(x), Num(y))) = ((Val(x) * Val(y)) % (Unit * Unit) = 0)
Integral == Singly /\ Finite(x) =>
  LET v == Val(x)  fl == (v \div Unit) * Unit  ce == (-((-v) \div Unit)) * Unit IN
  /\ Values({r \in Finites : FloorIs(x, r)}) = {fl} /\ Values({r \in Finites : CeilIs(x, r)}) = {ce}
  /\ Values({r \in Finites : TruncIs(x, r)}) = {IF v < 0 THEN ce ELSE fl}
  /\ Values({r \in Finites : FractIs(x, r)}) = {v - (IF v < 0 THEN ce ELSE fl)}
  /\ Values({r \in Finites : RoundIs(x, r)}) = {IF v < 0 THEN (-((Unit - 2 * v) \div (2 * Unit))) * Unit ELSE ((2 * v + Unit) \div (2 * Unit)) * Unit}
Euclidean == Pair /\ Finite(x) /\ Finite(y) /\ ~Zero(y) =>
  LET v == Val(x)  w == AbsV(Val(y))  rs == {r \in Numbers : RemEuclidIs(x, y, r)}
      q == IF Val(y) > 0 THEN v \div w ELSE -(v \div w)
      qs == {r \in Finites : DivEuclidIs(x, y, r)} IN
  /\ Cardinality({r.m : r \in rs}) = 1
  /\ v >= 0 => Values(rs) = {v % w}
  /\ v < 0 => \A r \in rs : LET t == v % w IN \A c \in Finites : AbsV(Val(r) - t) <= AbsV(Val(c) - t)
  /\ (\E r \in Finites : Val(r) = q * Unit) => q * Unit \in Values(qs)
  /\ \A r \in qs : r.m < InfBits => (AbsV(Val(r) - q * Unit) <= Unit \/ ~DLt(DAbs(Num(x)), DScale(DAbs(Num(y)), 22)))
\* an exact reciprocal, root or power is allowed, and a number that is far from it is not
Roots == Singly /\ Normal(x) /\ x.s = 0 => \A r \in Finites : Val(r) > 0 =>
  /\ (Val(r) * Val(r) = Val(x) * Unit => SqrtIs(x, r))
  /\ (SqrtIs(x, r) => 4 * AbsV(Val(r) * Val(r) - Val(x) * Unit) <= Val(x) * Unit)
Inverses == Singly /\ Normal(x) => \A r \in Finites :
  /\ (Val(r) * Val(x) = Unit * Unit => InvIs(x, r) /\ RecipIs(x, r))
  /\ (InvIs(x, r) => 4 * AbsV(Val(r) * Val(x) - Unit * Unit) <= Unit * Unit)
  /\ (RecipIs(x, r) => InvIs(x, r))
Powers == Singly /\ Finite(x) /\ ~Zero(x) => \A r \in Finites :
  /\ (Val(r) * Unit = Val(x) * Val(x) => PowiIs(x, 2, r)) /\ (Val(r) * Val(x) = Unit * Unit => PowiIs(x, -1, r))
  /\ PowiIs(x, 1, x) /\ (PowiIs(x, 0, r) <=> Val(r) = Unit)
  /\ (PowiIs(x, 2, r) => AbsV(Val(r) * Unit - Val(x) * Val(x)) * 100 <= Val(x) * Val(x))
Lengths == Pair /\ Finite(x) /\ Finite(y) => \A r \in Finites : Val(r) >= 0 /\ Val(r) * Val(r) = Val(x) * Val(x) + Val(y) * Val(y) => HypotIs(x, y, r)
=============================================================================
