-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The scalar API and its two clients.  A program is a sequence of method  *)
(* calls on one register; each call goes through F32 ("F") or through the  *)
(* trait F32Ext on f32 ("E").  All schedules of clients are run side by    *)
(* side, on terms: whichever client makes a call, it is the same function  *)
(* of the same arguments in the same order, it leaves a result (no call    *)
(* panics, whatever the arguments), and nothing but the register changes.  *)
(* The programs of two calls are emitted for replay; the arguments are     *)
(* those of Args, so that an exchange of arguments changes the term.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
\* name, kinds of the arguments after self ("x" a number, "n" an i32), exported by F32 too?
M(n, a, f) == [name |-> n, args |-> a, f32 |-> f]
Methods == <<
  M("abs", <<>>, 1), M("acos", <<>>, 0), M("asin", <<>>, 1), M("atan", <<>>, 1), M("atan_norm", <<>>, 1),
  M("atan2", <<"x">>, 1), M("atan2_norm", <<"x">>, 0), M("ceil", <<>>, 1), M("copysign", <<"x">>, 1), M("cos", <<>>, 1),
  M("div_euclid", <<"x">>, 1), M("exp", <<>>, 1), M("floor", <<>>, 1), M("fract", <<>>, 1), M("hypot", <<"x">>, 1),
  M("inv", <<>>, 1), M("invsqrt", <<>>, 1), M("ln", <<>>, 1), M("log", <<"x">>, 1), M("log2", <<>>, 1), M("log10", <<>>, 1),
  M("mul_add", <<"x", "x">>, 1), M("powf", <<"x">>, 1), M("powi", <<"n">>, 1), M("recip", <<>>, 1), M("rem_euclid", <<"x">>, 1),
  M("round", <<>>, 1), M("signum", <<>>, 1), M("sin", <<>>, 1), M("sin_cos.0", <<>>, 1), M("sin_cos.1", <<>>, 1), M("sqrt", <<>>, 1),
  M("tan", <<>>, 1), M("trunc", <<>>, 1) >>
N == Len(Methods)
Depth == 2
Args == <<"a", "b">>
Schedules == [1..Depth -> {"F", "E"}]

VARIABLES prog,       \* indices of the methods called
          reg         \* the term in the register, for each schedule
vars == <<prog, reg>>
\* the term a client forms: method, self, arguments in order (both clients are specified alike)
Term(client, m, self) == <<Methods[m].name, self, SubSeq(Args, 1, Len(Methods[m].args))>>
Init == prog = <<>> /\ reg = [s \in Schedules |-> <<"x">>]
Call(m) == /\ Len(prog) < Depth
           /\ prog' = Append(prog, m)
           /\ reg' = [s \in Schedules |-> Term(s[Len(prog) + 1], m, reg[s])]
Next == \E m \in 1..N : Call(m)
Spec == Init /\ [][Next]_vars

Agree == \A s, t \in Schedules : reg[s] = reg[t]
\* a call is enabled whatever happened before: methods are total
Total == Len(prog) < Depth => \A m \in 1..N : ENABLED Call(m)
\* the term determines the program (so a call through a wrong method, or of fewer arguments, is another term)
Faithful == \A s \in Schedules : Len(prog) = 1 => (reg[s][1] = Methods[prog[1]].name /\ Len(reg[s][3]) = Len(Methods[prog[1]].args))
ASSUME Cardinality({Methods[m].name : m \in 1..N}) = N
Rows == [k \in 1..N |-> [fn |-> "method", name |-> Methods[k].name, args |-> Methods[k].args, f32 |-> Methods[k].f32]]
  \o [j \in 1..(N * N) |-> [fn |-> "program", calls |-> << (j - 1) \div N, (j - 1) % N >>]]
Emitted == TLCGet("stats").distinct = 1 + N + N * N /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
