---------------------------- MODULE PolyfillRows ----------------------------
(***************************************************************************)
(* The bit rules at binary32: one state per function, sign and exponent.   *)
(* Each is checked against the definitions on a set of significands (TLC's *)
(* integers hold a 24-bit significand and its fraction exactly), and the   *)
(* rows are written to ROWS for the replay on all 2^32 bit patterns.       *)
(***************************************************************************)
EXTENDS Float, TLC, Json, IOUtils, FiniteSets

VARIABLE row
Functions == <<"trunc", "fract", "floor", "ceil", "round", "abs", "neg", "copysign", "signum">>
RowAt(f, s, e) == LET r == Rule(Functions[f], s, e) IN
  [fn |-> Functions[f], s |-> s, e |-> e, op |-> r.op, k |-> r.k, sg |-> r.sg, cmp |-> r.cmp]
NRows == Len(Functions) * 2 * (EMax + 1)
Rows == [i \in 1..NRows |->
  LET j == i - 1 IN RowAt((j \div (2 * (EMax + 1))) + 1, (j \div (EMax + 1)) % 2, j % (EMax + 1))]

Init == \E f \in 1..Len(Functions), s \in {0, 1}, e \in 0..EMax : row = RowAt(f, s, e)
Next == UNCHANGED row
Spec == Init /\ [][Next]_row

\* mantissas next to every boundary
Mantissas == {0, 1, 2, 3, ManMax, ManMax - 1, 2796202, 5592405, 1234567}
  \cup {2^i : i \in 0..(P-1)} \cup {2^i - 1 : i \in 1..P} \cup {2^i + 1 : i \in 1..(P-1)}
  \cup {2^P - 2^i : i \in 0..P-1} \cup {2^(P-1) + 2^i : i \in 0..(P-2)} \cup {2^(P-1) - 2^i : i \in 0..(P-2)}

Polyfills == {"trunc", "fract", "floor", "ceil", "round"}
\* significand and result in the window of the exponent of x: x = sig / 2^k
Sig(mm) == 2^P + mm
InWindow(e, b) == IF Expo(b) = e THEN Sig(Man(b)) ELSE IF Expo(b) = e + 1 THEN 2 * Sig(Man(b)) ELSE -1
FloorD(v, u) == (v \div u) * u
CeilD(v, u) == -FloorD(-v, u)
DefW(fn, v, u) ==
  CASE fn = "floor" -> FloorD(v, u) [] fn = "ceil" -> CeilD(v, u)
    [] fn = "trunc" -> IF v < 0 THEN CeilD(v, u) ELSE FloorD(v, u)
    [] fn = "round" -> IF v < 0 THEN -FloorD(-v + (u \div 2), u) ELSE FloorD(v + (u \div 2), u)
Window ==
  (row.fn \in Polyfills \ {"fract"} /\ row.e >= Bias /\ row.e < Bias + P) =>
    \A mm \in Mantissas :
      LET k == FracBits(row.e)
          b == row.e * 2^P + mm
          sgn == IF row.s = 1 THEN -1 ELSE 1
      IN DefW(row.fn, sgn * Sig(mm), 2^k) = sgn * InWindow(row.e, Apply(row, b))
FractWindow ==
  (row.fn = "fract" /\ row.e >= Bias /\ row.e < Bias + P) =>
    \A mm \in Mantissas : row.op = "LOW" /\ row.k = FracBits(row.e)
      /\ Sig(mm) - FloorD(Sig(mm), 2^row.k) = mm % 2^row.k
\* below one
Small ==
  (row.fn \in Polyfills /\ row.e < Bias) =>
    \A mm \in Mantissas :
      LET b == row.e * 2^P + mm
          r == IF row.op = "LOW" THEN -1 ELSE Apply(row, b)
          away == IF b = 0 THEN 0 ELSE OneBits
      IN CASE row.fn = "trunc" -> r = 0
           [] row.fn = "fract" -> r = b
           [] row.fn = "floor" -> r = (IF row.s = 1 THEN away ELSE 0)
           [] row.fn = "ceil"  -> r = (IF row.s = 0 THEN away ELSE 0)
           [] row.fn = "round" -> r = (IF row.e >= Bias - 1 THEN OneBits ELSE 0)
Large == (row.fn \in Polyfills \ {"fract"} /\ row.e >= Bias + P /\ row.e < EMax) => row.op = "ID"
Special == (row.e = EMax /\ row.fn \in Polyfills) => row.op = "SPEC"

Emitted == TLCGet("stats").generated > 0 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
