------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* A register machine over symbols: its components are polynomials (of     *)
(* Poly) in variables that stand for any numbers, so what it computes      *)
(* holds for every component type.  Quotients are further variables, the   *)
(* same one for the same dividend and divisor.                             *)
(* sym is what each component that was made so far stands for (number 0 is *)
(* the default component, zero); quo lists the quotients.                  *)
(* The vectors u and v and the scalar s are what the calls act on; a call  *)
(* replaces one of them by its result.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
P == INSTANCE Poly WITH n <- 1
Quotient(j) == 1000 + j
VARIABLES sym, quo, u, v, s
regs == <<sym, quo, u, v, s>>

None == << >>                                     \* no vector
Find(q, x, y) == {j \in 1..Len(q) : q[j] = <<x, y>>}
Ops == {"add", "sub", "mul", "div"}
\* components x and y are combined: the new component, and the quotients
Made(o, x, y) == CASE o = "add" -> P!Add(x, y) [] o = "sub" -> P!Sub(x, y) [] o = "mul" -> P!Mul(x, y)
                   [] o = "div" -> LET f == Find(quo, x, y) IN P!Var(Quotient(IF f = {} THEN Len(quo) + 1 ELSE CHOOSE j \in f : TRUE))
Combine(o, x, y) ==
  /\ sym' = Append(sym, TLCEval(Made(o, x, y)))
  /\ quo' = IF o = "div" /\ Find(quo, x, y) = {} THEN Append(quo, <<x, y>>) ELSE quo
  /\ UNCHANGED <<u, v, s>>

\* the machine before any call: vectors of d components, and a scalar; every one a variable
Fresh(d) == /\ sym' = TLCEval(<<P!Zero>> \o [i \in 1..2 * d + 1 |-> P!Var(i)])
            /\ quo' = << >>
            /\ u' = TLCEval([i \in 1..d |-> P!Var(i)]) /\ v' = TLCEval([i \in 1..d |-> P!Var(d + i)]) /\ s' = TLCEval(P!Var(2 * d + 1))
Value(i) == sym[i + 1]

\* --- what a call gives: sequences of polynomials ---
Lift(w) == IF Len(w) = 2 THEN P!Lift(w) ELSE w
Divided(w, x) == [i \in DOMAIN w |-> LET f == Find(quo, w[i], x) IN IF f = {} THEN <<"no such quotient">> ELSE P!Var(Quotient(CHOOSE j \in f : TRUE))]
RECURSIVE Total(_, _)
Total(w, c) == IF c = 0 THEN [i \in DOMAIN w |-> P!Zero] ELSE P!VAdd(Total(w, c - 1), IF c % 2 = 1 THEN u ELSE v)
Zeros(d) == [i \in 1..d |-> P!Zero]
\* a vector (by name) that a call replaces, or "s" for the scalar
Result(f, c) ==
  CASE f = "add" -> P!VAdd(u, v)
    [] f = "sub" -> P!VSub(u, v)
    [] f = "scale" -> P!VScale(s, u)
    [] f = "divide" -> Divided(u, s)
    [] f = "dot" -> <<P!Dot(u, v)>>
    [] f = "perp" -> <<P!Perp(u, v)>>
    [] f = "cross" -> P!Cross(Lift(u), Lift(v))
    [] f = "magsq" -> <<P!Dot(u, u)>>
    [] f = "total" -> Total(u, c)                 \* the sum of c vectors: u, v, u, v...
    [] f = "same" -> u                            \* conversions and copies
    [] f = "lift" -> P!Lift(u)
    [] f = "default" -> Zeros(Len(u))
    [] f = "double" -> P!VAdd(u, u)               \* map(|x| x + x)
    [] f = "part" -> <<u[c]>>
    [] f = "plus" -> <<P!Add(s, u[c])>>           \* the scalar and a component
Scalars == {"dot", "perp", "magsq", "part", "plus"}
Call(f, c, res) ==
  /\ Len(res) = Len(Result(f, c)) /\ \A i \in DOMAIN res : res[i] = Result(f, c)[i]
  /\ IF f \in Scalars THEN s' = res[1] /\ UNCHANGED <<u, v>>
     ELSE IF Len(res) = Len(u) THEN u' = res /\ UNCHANGED <<v, s>> ELSE UNCHANGED <<u, v, s>>
  /\ UNCHANGED <<sym, quo>>
Swap == u' = v /\ v' = u /\ UNCHANGED <<sym, quo, s>>
=============================================================================
