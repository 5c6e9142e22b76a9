------------------------------- MODULE Decimal -------------------------------
(***************************************************************************)
(* Numbers as decimal texts, read and written.  A text is a sequence of    *)
(* characters.  The number of a text is the nearest one (ties to even) of  *)
(* its exact decimal value; a number is written with the fewest digits     *)
(* that are read as the same number, and of these with the nearest ones.   *)
(***************************************************************************)
EXTENDS Ieee
T == INSTANCE Text WITH text <- <<>>, z <- <<>>, MaxLen <- 0
Value(c) == T!DigitVal(c)
Digit(c) == c \in T!Digits
RECURSIVE Scanned(_, _)
\* the scanner of Text
Scanned(t, n) == IF n = 0 THEN "start" ELSE T!D(Scanned(t, n - 1), t[n])
Valid(t) == Scanned(t, Len(t)) \in T!Accepting

\* d (digits, highest first) * 10^x is read as the magnitude m
Read(d, x, m) == LET n == OfDigits(d, Len(d)) IN
  IF x >= 0 THEN Rounded(m, BMul(n, BPow(Nat2Big(10), x)), 0, <<1>>) ELSE Rounded(m, n, 0, BPow(Nat2Big(10), -x))
\* comparison of d * 10^x with the value of m
CmpDec(d, x, m) == LET n == OfDigits(d, Len(d)) IN
  -(IF x >= 0 THEN CmpQ(Nat2Big(Signif(m)), Scale(m), BMul(n, BPow(Nat2Big(10), x)), 0, <<1>>)
              ELSE CmpQ(Nat2Big(Signif(m)), Scale(m), n, 0, BPow(Nat2Big(10), -x)))

\* parts of a text: the characters of S from position i on
RECURSIVE Span(_, _)
Span(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN 1 + Span(t, i + 1) ELSE 0
DigitsOf(t, i, n) == [j \in 1..n |-> Value(t[i + j - 1])]
RECURSIVE Small(_, _)
\* an exponent, capped
Small(d, n) == IF n = 0 THEN 0 ELSE LET v == 10 * Small(d, n - 1) + d[n] IN IF v > 20000 THEN 20000 ELSE v
RECURSIVE NoLead(_)
NoLead(d) == IF d # <<>> /\ d[1] = 0 THEN NoLead(Tail(d)) ELSE d
Sgn(t) == IF t # <<>> /\ t[1] = "-" THEN 1 ELSE 0
Skip(t) == IF t # <<>> /\ t[1] \in {"+", "-"} THEN 1 ELSE 0
\* a valid decimal text: digits and exponent
Parts(t) ==
  LET s == Skip(t)
      i == Span(t, s + 1)
      dot == s + i < Len(t) /\ t[s + i + 1] = "."
      f == IF dot THEN Span(t, s + i + 2) ELSE 0
      e == s + i + (IF dot THEN 1 ELSE 0) + f + 1          \* where the exponent begins, if there is one
      has == e < Len(t)
      sg == IF has /\ t[e + 1] = "-" THEN -1 ELSE 1
      from == IF has /\ t[e + 1] \in {"+", "-"} THEN e + 2 ELSE e + 1
      n == IF has THEN Len(t) - from + 1 ELSE 0
      x == IF has THEN sg * Small(DigitsOf(t, from, n), n) ELSE 0
  IN [d |-> NoLead(DigitsOf(t, s + 1, i) \o (IF dot THEN DigitsOf(t, s + i + 2, f) ELSE <<>>)), x |-> x - f, int |-> i, dot |-> dot, frac |-> f, exp |-> has]
\* far beyond the range: 10^x with x > 400 or x + digits < -400
ParseIs(t, r) == \* r = [ok, s, m]
  IF ~Valid(t) THEN r.ok = 0
  ELSE /\ r.ok = 1
       /\ LET q == Scanned(t, Len(t)) IN
          IF q = "nan" THEN IsNaN(r.m)
          ELSE /\ r.s = Sgn(t)
               /\ (IF q \in {"inf", "infinity"} THEN r.m = InfBits
                   ELSE LET p == Parts(t) IN
                        IF p.d = <<>> \/ p.x + Len(p.d) < -400 THEN r.m = 0
                        ELSE IF p.x + Len(p.d) > 400 THEN r.m = InfBits ELSE Read(p.d, p.x, r.m))

\* The shortest text that is read as m is d * 10^x
Next1(d, n) == \* d + 1 as digits (one more digit if it overflows)
  LET RECURSIVE Up(_)
      Up(k) == IF k = 0 THEN <<1>> \o [j \in 1..n |-> 0] ELSE IF d[k] < 9 THEN [j \in 1..n |-> IF j < k THEN d[j] ELSE IF j = k THEN d[k] + 1 ELSE 0] ELSE Up(k - 1)
  IN Up(n)
Prev1(d, n) == \* d - 1, for d > 0
  LET RECURSIVE Down(_)
      Down(k) == IF d[k] > 0 THEN [j \in 1..n |-> IF j < k THEN d[j] ELSE IF j = k THEN d[k] - 1 ELSE 9] ELSE Down(k - 1)
  IN Down(n)
ShortestIs(d, x, m) ==
  LET n == Len(d) IN
  /\ d # <<>> /\ d[1] # 0 /\ d[n] # 0 /\ Read(d, x, m)
  \* no number with a digit less
  /\ LET c == SubSeq(d, 1, n - 1) IN ~Read(c, x + 1, m) /\ ~Read(IF n = 1 THEN <<1>> ELSE Next1(c, n - 1), x + 1, m)
  \* no nearer one with as many digits: 2 |m - d 10^x| <= 10^x, or the neighbour is not read as m
  /\ LET c == CmpDec(d, x, m)
         half == OfDigits(d, n)
         \* twice d plus or minus one, times 10^x, is the midpoint towards m
         mid(s) == LET b == IF s = 1 THEN BAdd(Shl(half, 1), <<1>>) ELSE BSub(Shl(half, 1), <<1>>) IN
                   IF x >= 0 THEN CmpQ(Nat2Big(Signif(m)), Scale(m) + 1, BMul(b, BPow(Nat2Big(10), x)), 0, <<1>>)
                             ELSE CmpQ(Nat2Big(Signif(m)), Scale(m) + 1, b, 0, BPow(Nat2Big(10), -x))
     IN CASE c = 0 -> TRUE
          [] c < 0 -> mid(1) <= 0 \/ ~Read(Next1(d, n), x, m)          \* d is below m
          [] c > 0 -> mid(-1) >= 0 \/ ~Read(Prev1(d, n), x, m)
RECURSIVE CutTrail(_)
CutTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN CutTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* form "plain": digits, without exponent; "e", "E": one digit before the point, and an exponent
\* the magnitude part u of a text (no sign) shows the shortest digits of m
PlainIs(u, m) ==
  LET p == Parts(u)  d == CutTrail(p.d) IN
  /\ Valid(u) /\ Skip(u) = 0 /\ ~p.exp
  /\ p.int >= 1 /\ (p.int > 1 => u[1] # "0")                      \* no leading zero but a single one
  /\ (p.dot => p.frac >= 1 /\ u[Len(u)] # "0")                    \* no trailing point or zeros
  /\ (IF m = 0 THEN u = <<"0">> ELSE ShortestIs(d, p.x + Len(p.d) - Len(d), m))
\* the power of ten is one that a number can have
Sane(p) == p.x + Len(p.d) \in -400..400
ExpIs(u, m, letter) ==
  LET p == Parts(u)  d == CutTrail(p.d)  at == CHOOSE i \in 1..Len(u) : u[i] \in {"e", "E"} IN
  /\ Valid(u) /\ Skip(u) = 0 /\ p.exp /\ Sane(p) /\ u[at] = letter
  /\ p.int = 1 /\ (p.dot => p.frac >= 1 /\ u[at - 1] # "0")
  /\ u[at + 1] # "+" /\ LET from == IF u[at + 1] = "-" THEN at + 2 ELSE at + 1 IN (u[from] # "0" \/ (from = Len(u) /\ from = at + 1))
  /\ (IF m = 0 THEN u = <<"0", letter, "0">> ELSE u[1] # "0" /\ ShortestIs(d, p.x + Len(p.d) - Len(d), m))
\* a whole text: sign (plus if asked for), then NaN (without sign), inf, or the number
Signed(t, s, plus) == IF s = 1 THEN <<"-">> ELSE IF plus THEN <<"+">> ELSE <<>>
\* with p digits after the point: the exact value rounded to them, to nearest
FixedIs(u, m, p) ==
  LET q == Parts(u) IN
  /\ Valid(u) /\ Skip(u) = 0 /\ ~q.exp /\ q.int >= 1 /\ (q.int > 1 => u[1] # "0") /\ q.frac = p /\ q.dot = (p > 0)
  /\ LET b == OfDigits(q.d, Len(q.d))
         cmp(c) == CmpQ(Nat2Big(Signif(m)), Scale(m) + 1, c, 0, BPow(Nat2Big(10), p)) IN
     /\ cmp(BAdd(Shl(b, 1), <<1>>)) <= 0 /\ (b # <<>> => cmp(BSub(Shl(b, 1), <<1>>)) >= 0)
\* with p digits after the point, and an exponent: rounded to p + 1 digits
ExpFixedIs(u, m, letter, p) ==
  LET q == Parts(u) IN
  /\ Valid(u) /\ Skip(u) = 0 /\ q.exp /\ Sane(q) /\ q.int = 1 /\ q.frac = p /\ q.dot = (p > 0) /\ Len(u) > p + (IF p > 0 THEN 3 ELSE 2)
  /\ LET at == p + (IF p > 0 THEN 3 ELSE 2)  from == IF u[at + 1] = "-" THEN at + 2 ELSE at + 1 IN
     u[at] = letter /\ u[at + 1] # "+" /\ from <= Len(u) /\ (u[from] # "0" \/ (from = Len(u) /\ from = at + 1))
  /\ (IF m = 0 THEN q.d = <<>> /\ q.x = -p
      ELSE /\ u[1] # "0"
           /\ LET b == OfDigits(q.d, p + 1)
                  cmp(c) == IF q.x >= 0 THEN CmpQ(Nat2Big(Signif(m)), Scale(m) + 1, BMul(c, BPow(Nat2Big(10), q.x)), 0, <<1>>)
                            ELSE CmpQ(Nat2Big(Signif(m)), Scale(m) + 1, c, 0, BPow(Nat2Big(10), -q.x)) IN
              cmp(BAdd(Shl(b, 1), <<1>>)) <= 0 /\ cmp(BSub(Shl(b, 1), <<1>>)) >= 0)
\* The text u of x, without padding.  form: "plain", "e" or "E"; p: digits after the point, or -1; plus: sign of positive numbers
BodyIs(u, x, form, p, plus) ==
  LET sg == Signed(u, x.s, plus)  n == Len(sg) IN
  IF Nan(x) THEN u = <<"N", "a", "N">>
  ELSE /\ Len(u) > n /\ SubSeq(u, 1, n) = sg
       /\ LET v == SubSeq(u, n + 1, Len(u)) IN
          IF Inf(x) THEN v = <<"i", "n", "f">>
          ELSE IF form = "plain" THEN (IF p < 0 THEN PlainIs(v, x.m) ELSE FixedIs(v, x.m, p))
          ELSE (\E i \in 1..Len(v) : v[i] = form) /\ (IF p < 0 THEN ExpIs(v, x.m, form) ELSE ExpFixedIs(v, x.m, form, p))
\* padding to a width: with zeros after the sign, or else with the fill on the side that the alignment ("<", "^", ">" or none) leaves
Padding(n, c) == [i \in 1..MaxN(0, n) |-> c]
RECURSIVE Run(_, _, _)
\* how often c is repeated in t from position i on
Run(t, i, c) == IF i <= Len(t) /\ t[i] = c THEN 1 + Run(t, i + 1, c) ELSE 0
LeftOf(k, align) == CASE align = "<" -> 0 [] align = "^" -> k \div 2 [] OTHER -> k
\* how much padding there may be
Pads(t, width, most) == {0} \cup (IF Len(t) = width THEN 1..most ELSE {})
FormatIs(t, x, form, p, plus, width, zeros, fill, align) ==
  /\ Len(t) >= width
  /\ IF zeros THEN
       LET s == Skip(t) IN
       \E k \in Pads(t, width, Run(t, s + 1, "0")) : BodyIs(SubSeq(t, 1, s) \o SubSeq(t, s + k + 1, Len(t)), x, form, p, plus)
     ELSE \E k \in Pads(t, width, Len(t) - 1) :
       LET a == LeftOf(k, align)  b == k - a IN
       /\ \A i \in 1..a : t[i] = fill
       /\ \A i \in 1..b : t[Len(t) + 1 - i] = fill
       /\ BodyIs(SubSeq(t, a + 1, Len(t) - b), x, form, p, plus)
=============================================================================
