----------------------------- MODULE SymbolsMC -----------------------------
(***************************************************************************)
(* Programs of calls on symbols, run side by side with the same calls on   *)
(* integers (plain definitions, component by component): whatever integers *)
(* the variables stand for, the polynomials have the values that the calls *)
(* give.  So a law of the symbols is one of all component types.           *)
(***************************************************************************)
EXTENDS Symbols
CONSTANTS Dims, Calls                    \* axes; calls in a program
VARIABLES x, y, k, n                     \* the vectors and the scalar in integers, the calls made
vars == <<regs, x, y, k, n>>
\* what the variables stand for
Env(d) == [i \in 1..2 * d + 1 |-> <<3, -2, 5, 1, 4, -7, 2>>[i]]
RECURSIVE Power(_, _), SumUp(_, _)
Power(m, env) == IF m = << >> THEN 1 ELSE env[m[1]] * Power(Tail(m), env)
SumUp(D, f) == IF D = {} THEN 0 ELSE LET m == CHOOSE m \in D : TRUE IN f[m] + SumUp(D \ {m}, f)
At(p, env) == SumUp(DOMAIN p, [m \in DOMAIN p |-> p[m] * Power(m, env)])
d == Len(u)
Sum3(a, b) == IF Len(a) = 2 THEN a[1] * b[1] + a[2] * b[2] ELSE a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Third(a) == IF Len(a) = 2 THEN 0 ELSE a[3]
Init == \E e \in Dims :
  /\ sym = << >> /\ quo = << >> /\ u = TLCEval([i \in 1..e |-> P!Var(i)]) /\ v = TLCEval([i \in 1..e |-> P!Var(e + i)]) /\ s = P!Var(2 * e + 1)
  /\ x = [i \in 1..e |-> Env(e)[i]] /\ y = [i \in 1..e |-> Env(e)[e + i]] /\ k = Env(e)[2 * e + 1] /\ n = 0
Do(f, c) == Call(f, c, TLCEval(Result(f, c))) /\ n' = n + 1
Vector(f, c, w) == Do(f, c) /\ x' = w /\ UNCHANGED <<y, k>>
Scalar(f, c, w) == Do(f, c) /\ k' = w /\ UNCHANGED <<x, y>>
Next == n < Calls /\
  \/ Vector("add", 0, [i \in 1..d |-> x[i] + y[i]])
  \/ Vector("sub", 0, [i \in 1..d |-> x[i] - y[i]])
  \/ Vector("scale", 0, [i \in 1..d |-> k * x[i]])
  \/ Vector("double", 0, [i \in 1..d |-> 2 * x[i]])
  \/ \E c \in {0, 1, 3} : Vector("total", c, [i \in 1..d |-> (c - c \div 2) * x[i] + (c \div 2) * y[i]])
  \/ Scalar("dot", 0, Sum3(x, y))
  \/ Scalar("magsq", 0, Sum3(x, x))
  \/ \E c \in 1..d : Scalar("part", c, x[c]) \/ Scalar("plus", c, k + x[c])
  \/ d = 2 /\ Scalar("perp", 0, x[1] * y[2] - x[2] * y[1])
  \/ d = 3 /\ Vector("cross", 0, <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>)
  \/ Swap /\ x' = y /\ y' = x /\ n' = n + 1 /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
Agree == LET env == Env(d) IN
  /\ \A i \in 1..d : At(u[i], env) = x[i] /\ At(v[i], env) = y[i]
  /\ At(s, env) = k
\* a polynomial has no terms that are zero, and its monomials are sorted: equal polynomials are the same value of TLA+
Normal == \A p \in {u[i] : i \in 1..d} \cup {s} : \A m \in DOMAIN p : p[m] # 0 /\ \A i \in 1..Len(m) - 1 : m[i] <= m[i + 1]
=============================================================================
