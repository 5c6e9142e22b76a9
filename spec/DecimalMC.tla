------------------------------ MODULE DecimalMC ------------------------------
(***************************************************************************)
(* All short texts, read as and written from numbers of a small format:    *)
(* a text is read as exactly one number or refused, a text that is written *)
(* for a number is read as that number, every number has a shortest text,  *)
(* and rounding to a number of digits is the nearest one.                  *)
(***************************************************************************)
EXTENDS Decimal, TLC, FiniteSets
CONSTANT Longest
VARIABLES t
Alphabet == {"0", "1", "4", "5", ".", "-", "e"}
Numbers == [s : {0, 1}, m : 0..InfBits]
Init == t = <<>>
Next == Len(t) < Longest /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
Answers == {r \in [ok : {0, 1}, s : {0, 1}, m : 0..InfBits] : (r.ok = 0 => r.s = 0 /\ r.m = 0) /\ ParseIs(t, r)}
ReadOnce == Cardinality(Answers) = 1 /\ \A r \in Answers : r.ok = (IF Valid(t) THEN 1 ELSE 0)
\* the value of a text without exponent, in 10^-4, against the numbers in 2^-4 (the smallest one)
RECURSIVE IntOf(_, _)
IntOf(d, n) == IF n = 0 THEN 0 ELSE 10 * IntOf(d, n - 1) + d[n]
Mag(m) == Signif(m) * 2^(Scale(m) + Bias + P - 1)
MagInf(m) == IF m = InfBits THEN 2^(P + 1) * 2^(EMax - 2) ELSE Mag(m)
AbsV(v) == IF v < 0 THEN -v ELSE v
Nearest == Valid(t) /\ ~Parts(t).exp =>
  LET p == Parts(t)  v == IntOf(p.d, Len(p.d)) * 10^(4 + p.x) * 2^(Bias + P - 1) IN
  \A r \in Answers : \A m \in 0..InfBits : AbsV(v - 10000 * MagInf(r.m)) <= AbsV(v - 10000 * MagInf(m))
\* what is written is read back, and it is not longer than any other text that is
Written(x) == FormatIs(t, x, "plain", -1, FALSE, 0, FALSE, " ", "")
Back == \A x \in Numbers : Written(x) => Answers = {[ok |-> 1, s |-> x.s, m |-> x.m]}
BackExp == \A x \in Numbers : FormatIs(t, x, "e", -1, FALSE, 0, FALSE, " ", "") => Answers = {[ok |-> 1, s |-> x.s, m |-> x.m]}
WrittenOnce == Cardinality({x \in Numbers : Written(x)}) <= 1
\* digits with few zeros around, to be the shortest ones
DigitSeqs == UNION {[1..n -> 0..9] : n \in 1..3}
Shortest(m) == {c \in DigitSeqs \X (-5..2) : c[1][1] # 0 /\ c[1][Len(c[1])] # 0 /\ ShortestIs(c[1], c[2], m)}
Exists == t = <<>> => \A m \in 1..(InfBits - 1) :
  LET S == Shortest(m) IN
  /\ S # {} /\ \A c, d \in S : Len(c[1]) = Len(d[1]) /\ c[2] = d[2]
  /\ (Cardinality(S) > 1 => \A c \in S : CmpDec(c[1], c[2], m) # 0)
  \* and all with fewer digits are read as other numbers
  /\ \A c \in DigitSeqs \X (-5..2) : Read(c[1], c[2], m) => \A d \in S : Len(NoLead(CutTrail(c[1]))) >= Len(d[1])
\* rounding to p digits
Rounds == \A x \in Numbers : \A p \in 0..2 : x.m < InfBits /\ FormatIs(t, x, "plain", p, FALSE, 0, FALSE, " ", "") =>
  LET q == Parts(t)  d == IntOf(q.d, Len(q.d))  u == 2^(Bias + P - 1) IN     \* 2 |d * u - Mag * 10^p| <= u
  q.x = -p /\ 2 * AbsV(d * u - Mag(x.m) * 10^p) <= u /\ x.s = Sgn(t)
Padded == \A x \in Numbers : \A w \in {Len(t) - 1, Len(t)} : w > 0 /\ Written(x) =>
  /\ FormatIs(t, x, "plain", -1, FALSE, w, TRUE, " ", "") /\ FormatIs(<<" ", " ">> \o t, x, "plain", -1, FALSE, Len(t) + 2, FALSE, " ", "")
  /\ ~FormatIs(<<" ">> \o t, x, "plain", -1, FALSE, Len(t) + 2, FALSE, " ", "") /\ ~FormatIs(<<" ">> \o t, x, "plain", -1, FALSE, 0, FALSE, " ", "")
  /\ (x.s = 0 /\ x.m < InfBits => FormatIs(<<"+", "0">> \o t, x, "plain", -1, TRUE, Len(t) + 2, TRUE, " ", "") /\ ~FormatIs(<<"+", "0">> \o t, x, "plain", -1, TRUE, Len(t), TRUE, " ", ""))
  \* by fill and alignment, the odd one on the right
  /\ \A k \in 0..3 : \A a \in {"<", "^", ">", ""} : \A f \in {"*", "-"} :
       LET at == {i \in 0..k : FormatIs(Padding(i, f) \o t \o Padding(k - i, f), x, "plain", -1, FALSE, Len(t) + k, FALSE, f, a)} IN
       at = {CASE a = "<" -> 0 [] a = "^" -> k \div 2 [] OTHER -> k}
Covered == TLCGet("stats").distinct > 1000
=============================================================================
