----------------------------- MODULE CurvesTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the approximations of elementary functions, on        *)
(* arguments of all magnitudes and signs, of both forms (F32 and F32Ext),  *)
(* chained now and then (a call on the result of the one before).  Each    *)
(* result is decided by the row of Contract, or the cell of Contract2,     *)
(* that its arguments are in.                                              *)
(***************************************************************************)
EXTENDS Curves, Json, IOUtils
VARIABLES l, last
vars == <<l, last>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
C1 == INSTANCE Contract WITH fn <- "", sg <- 0, i <- 1, from <- 0
C2 == INSTANCE Contract2 WITH fn <- "", xs <- 0, x <- 1, ys <- 0, y <- 1
Two == {C2!Functions[k] : k \in 1..Len(C2!Functions)}
RowOf(f, x) == LET rs == C1!Rows(f, x.s)  k == CHOOSE k \in 1..Len(rs) : x.m <= rs[k].upto /\ (k = 1 \/ x.m > rs[k - 1].upto) IN rs[k]
ClassOf(x) == CHOOSE k \in 1..7 : x.m <= C2!Upto[k] /\ (k = 1 \/ x.m > C2!Upto[k - 1])
CellOf(f, x, y) == C2!Kind(f, x.s, ClassOf(x), y.s, ClassOf(y))
Lead(r, s) == r.s = s \/ Zero(r)
Positively(x) == [x EXCEPT !.s = 0]
Unary(f, x, r) == LET k == RowOf(f, x)  a == k.a  u == Finite(r) IN
  CASE k.kind = "ANY" -> TRUE
    [] k.kind = "NAN" -> Nan(r)
    [] k.kind = "INF" -> Is(r, x.s, InfBits)
    [] k.kind = "PINF" -> Is(r, 0, InfBits)
    [] k.kind = "NONNEG" -> u /\ Lead(r, 0) /\ DLe(DMul(Num(r), Fixed(One)), DMul(Dy(0, <<1>>, a), DAdd(One, Tolerance(k.b))))
    [] k.kind = "EQ" -> u /\ DEq(Num(r), Whole(a))
    [] k.kind = "SIN" -> u /\ InUnit(r) /\ SinIs(x, r, a, IF k.b = 0 THEN Whole(0) ELSE DScale(DAbs(Num(x)), k.b))
    [] k.kind = "COS" -> u /\ InUnit(r) /\ CosIs(x, r, a, IF k.b = 0 THEN Whole(0) ELSE DScale(DAbs(Num(x)), k.b))
    [] k.kind = "UNIT" -> u /\ InUnit(r)
    [] k.kind = "TAN" -> ~Nan(r) /\ TanIs(x, r, a)
    [] k.kind = "ATAN" -> u /\ AtanIs(x, r, a)
    [] k.kind = "ATANN" -> u /\ AtanNIs(x, r, a)
    [] k.kind = "ASIN" -> u /\ AsinIs(x, r, a)
    [] k.kind = "ACOS" -> u /\ AcosIs(x, r, a)
    [] k.kind = "EXP" -> u /\ ExpIs(x, r, a)
    [] k.kind = "COSH" -> u /\ CoshIs(x, r, a)
    [] k.kind = "EXPINF" -> Is(r, 0, InfBits) \/ (u /\ IF f = "exp" THEN ExpIs(x, r, a) ELSE CoshIs(x, r, 20000))
    [] k.kind = "LN" -> u /\ LnIs(x, r, a)
    [] k.kind = "LOG2" -> u /\ LogIs(x, r, Ln2, a)
    [] k.kind = "LOG10" -> u /\ LogIs(x, r, Ln10, a)
\* of x and y, where x is the receiver
Binary(f, x, y, r) == LET k == CellOf(f, x, y)  a == k.a IN
  CASE k.kind = "ANY" -> TRUE
    [] k.kind = "NAN" -> Nan(r)
    [] k.kind = "EQ" -> Finite(r) /\ DEq(Num(r), Whole(a))
    [] k.kind = "ATAN2" ->
         /\ Finite(r) /\ DLe(DAbs(Num(r)), DAdd(DTimes(Quarter, 2), Tolerance(3)))
         /\ AngleIs(F(r), Num(y), Num(x), Tolerance(a))
         /\ (DLe(DScale(DAbs(Num(y)), -20), DAbs(Num(x))) => ~Zero(r) /\ (r.s = 1 <=> x.s = 1))
         /\ (x.s = 0 => Lead(r, 0))
    [] k.kind = "ATAN2N" ->
         /\ Finite(r) /\ Lead(r, 0) /\ DLe(Num(r), Whole(4))
         /\ AngleIs(InTurns(r), Num(y), Num(x), Times(Tolerance(a), Quarter))
    [] k.kind = "LOGB" -> LogBIs(x, y, r, a)
    [] k.kind = "POWF" -> PowfIs(x, y, r, a, k.b)
    [] k.kind = "POWFNEG" ->
         IF ~IsInteger(y.m) THEN Nan(r)
         ELSE a = 1 => ~Nan(r) /\ r.s = (IF IsOdd(y.m) THEN 1 ELSE 0) /\ PowfIs(Positively(x), y, Positively(r), CellOf(f, Positively(x), y).a, CellOf(f, Positively(x), y).b)
Step(e) ==
  /\ (e.c = 1 => e.x = last) = TRUE
  /\ (IF e.fn \in Two THEN Binary(e.fn, e.x, e.y, e.r) ELSE Unary(e.fn, e.x, e.r)) = TRUE
  /\ last' = e.r
Init == l = 1 /\ last = [s |-> 0, m |-> 0]
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
