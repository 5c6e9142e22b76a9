-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The texts that are parsed as F32, and the numbers they denote:          *)
(*   [+|-] ( inf | infinity | nan | digits [. [digits]] | . digits )       *)
(*   with an exponent (e|E) [+|-] digits after the decimal forms only,     *)
(*   letters in either case, and nothing else: no spaces, no empty text.   *)
(* A scanner consumes one symbol at a time, and keeps the number read so   *)
(* far.  Its control table (for any text), and all texts up to MaxLen      *)
(* symbols of Alphabet are emitted.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT MaxLen
Alphabet == <<"0", "3", ".", "-", "e", "E", "+", "x">>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
Lower(c) == CASE c = "I" -> "i" [] c = "N" -> "n" [] c = "F" -> "f" [] c = "T" -> "t" [] c = "Y" -> "y" [] c = "A" -> "a" [] c = "E" -> "e" [] OTHER -> c

\* control: one state per position in the grammar
D(q, c) ==
  LET dg == c \in Digits  l == Lower(c) IN
  CASE q = "start" -> IF c \in {"+", "-"} THEN "signed" ELSE IF dg THEN "int" ELSE IF c = "." THEN "dot" ELSE IF l = "i" THEN "i" ELSE IF l = "n" THEN "n" ELSE "bad"
    [] q = "signed" -> IF dg THEN "int" ELSE IF c = "." THEN "dot" ELSE IF l = "i" THEN "i" ELSE IF l = "n" THEN "n" ELSE "bad"
    [] q = "int" -> IF dg THEN "int" ELSE IF c = "." THEN "frac" ELSE IF l = "e" THEN "exp" ELSE "bad"
    [] q = "dot" -> IF dg THEN "frac" ELSE "bad"                 \* a dot without digits before it
    [] q = "frac" -> IF dg THEN "frac" ELSE IF l = "e" THEN "exp" ELSE "bad"
    [] q = "exp" -> IF dg THEN "expn" ELSE IF c \in {"+", "-"} THEN "exps" ELSE "bad"
    [] q = "exps" -> IF dg THEN "expn" ELSE "bad"
    [] q = "expn" -> IF dg THEN "expn" ELSE "bad"
    [] q = "i" -> IF l = "n" THEN "in" ELSE "bad"
    [] q = "in" -> IF l = "f" THEN "inf" ELSE "bad"
    [] q = "inf" -> IF l = "i" THEN "infi" ELSE "bad"
    [] q = "infi" -> IF l = "n" THEN "infin" ELSE "bad"
    [] q = "infin" -> IF l = "i" THEN "infini" ELSE "bad"
    [] q = "infini" -> IF l = "t" THEN "infinit" ELSE "bad"
    [] q = "infinit" -> IF l = "y" THEN "infinity" ELSE "bad"
    [] q = "n" -> IF l = "a" THEN "na" ELSE "bad"
    [] q = "na" -> IF l = "n" THEN "nan" ELSE "bad"
    [] OTHER -> "bad"
States == <<"start", "signed", "int", "dot", "frac", "exp", "exps", "expn", "i", "in", "inf", "infi", "infin", "infini", "infinit", "infinity", "n", "na", "nan", "bad">>
Accepting == {"int", "frac", "expn", "inf", "infinity", "nan"}
AllSymbols == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ".", "-", "+", "e", "E", "i", "I", "n", "N", "f", "F", "t", "T", "y", "Y", "a", "A", "x", " ", "_">>

VARIABLES text,       \* symbols read
          z           \* control state q; sign and digits (m) of the number, how many of them are fractional (f); sign and digits (x) of the exponent
vars == <<text, z>>
\* one step of the scanner, on records
Step(y, c) == LET r == D(y.q, c) IN
  [q |-> r,
   neg |-> IF y.q = "start" /\ c = "-" THEN 1 ELSE y.neg,
   m |-> IF c \in Digits /\ r \in {"int", "frac"} THEN 10 * y.m + DigitVal(c) ELSE y.m,
   f |-> IF c \in Digits /\ r = "frac" THEN y.f + 1 ELSE y.f,
   xneg |-> IF y.q = "exp" /\ c = "-" THEN 1 ELSE y.xneg,
   x |-> IF r = "expn" THEN 10 * y.x + DigitVal(c) ELSE y.x]
Start == [q |-> "start", neg |-> 0, m |-> 0, f |-> 0, xneg |-> 0, x |-> 0]
Init == text = <<>> /\ z = Start
Read(c) == text' = Append(text, c) /\ z' = Step(z, c)
RECURSIVE Scan(_)
Scan(t) == IF t = <<>> THEN Start ELSE Step(Scan(SubSeq(t, 1, Len(t) - 1)), t[Len(t)])
Words == << <<"i","n","f">>, <<"I","n","F">>, <<"i","n","f","i","n","i","t","y">>, <<"I","N","F","I","N","I","T","Y">>, <<"n","a","n">>, <<"N","a","N">>,
            <<"i","n","f","i","n","i","t">>, <<"i","n">>, <<"n","a">>, <<"-","i","n","f">>, <<"+","i","n","f","i","n","i","t","y">>, <<"-","n","a","n">> >>
\* a word at the beginning
Word(w) == text = <<>> /\ text' = Words[w] /\ z' = Scan(Words[w])
Next == \/ Len(text) < MaxLen /\ \E i \in 1..Len(Alphabet) : Read(Alphabet[i])
        \/ \E w \in 1..Len(Words) : Word(w)
        \/ Len(text) \in 2..9 /\ z.q \notin {"bad", "int", "frac", "exp", "exps", "expn", "dot"} /\ \E i \in 1..Len(AllSymbols) : Read(AllSymbols[i])
Spec == Init /\ [][Next]_vars

\* the grammar once more, as conditions on the whole text
IsSign(c) == c \in {"+", "-"}
Unsigned(t) == IF t # <<>> /\ IsSign(t[1]) THEN SubSeq(t, 2, Len(t)) ELSE t
AllDigits(t) == \A i \in 1..Len(t) : t[i] \in Digits
Decimal(t) == \/ t # <<>> /\ AllDigits(t)
              \/ \E i \in 1..Len(t) : /\ t[i] = "." /\ AllDigits(SubSeq(t, 1, i - 1)) /\ AllDigits(SubSeq(t, i + 1, Len(t))) /\ Len(t) > 1
Special(t) == LET l == [i \in 1..Len(t) |-> Lower(t[i])] IN l \in {<<"i","n","f">>, <<"i","n","f","i","n","i","t","y">>, <<"n","a","n">>}
Valid(t) == LET u == Unsigned(t) IN
  \/ Special(u) \/ Decimal(u)
  \/ \E i \in 1..Len(u) : u[i] \in {"e", "E"} /\ Decimal(SubSeq(u, 1, i - 1)) /\ LET xp == Unsigned(SubSeq(u, i + 1, Len(u))) IN xp # <<>> /\ AllDigits(xp)
Accepts == (z.q \in Accepting) <=> Valid(text)
Dead == [][ z.q = "bad" => z'.q = "bad" ]_vars
Known == \E i \in 1..Len(States) : z.q = States[i]
\* the value read so far is that of the text
RECURSIVE Value(_)
Value(t) == IF t = <<>> THEN 0 ELSE 10 * Value(SubSeq(t, 1, Len(t) - 1)) + DigitVal(t[Len(t)])
Reads == (z.q = "int" => z.m = Value(Unsigned(text)) /\ z.f = 0 /\ z.x = 0)
      /\ (z.q = "frac" => \E i \in 1..Len(text) : text[i] = "." /\ z.m = Value(Unsigned(SubSeq(text, 1, i - 1)) \o SubSeq(text, i + 1, Len(text))) /\ z.f = Len(text) - i)
      /\ (z.neg = 1 <=> text # <<>> /\ text[1] = "-")

\* the transitions, and all texts of up to MaxLen symbols
N == Len(Alphabet)
RECURSIVE At(_)
At(k) == IF k = 0 THEN <<>> ELSE Append(At((k - 1) \div N), Alphabet[((k - 1) % N) + 1])
RECURSIVE Count(_)
Count(l) == IF l = 0 THEN 1 ELSE 1 + N * Count(l - 1)
RECURSIVE Join(_)
Join(t) == IF t = <<>> THEN "" ELSE Join(SubSeq(t, 1, Len(t) - 1)) \o t[Len(t)]
Row(t) == LET s == Scan(t) IN [fn |-> "text", t |-> Join(t), q |-> s.q, neg |-> s.neg, m |-> s.m, e |-> (IF s.xneg = 1 THEN -s.x ELSE s.x) - s.f]
Table == [k \in 1..(Len(States) * Len(AllSymbols)) |->
  LET s == States[((k - 1) \div Len(AllSymbols)) + 1]  c == AllSymbols[((k - 1) % Len(AllSymbols)) + 1]
  IN [fn |-> "step", q |-> s, c |-> c, to |-> D(s, c), ok |-> IF s \in Accepting THEN 1 ELSE 0]]
Emitted == TLCGet("stats").distinct > 1000
        /\ ndJsonSerialize(IOEnv.ROWS, Table \o [w \in 1..Len(Words) |-> Row(Words[w])] \o [k \in 1..Count(MaxLen) |-> Row(At(k - 1))])
=============================================================================
