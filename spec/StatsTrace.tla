----------------------------- MODULE StatsTrace -----------------------------
(***************************************************************************)
(* What the code gave for samples that are integers: means in 1024ths and  *)
(* variances in 64ths (rounded to nearest), standard deviations in eighths *)
(* (rounded down), and several trimming iterators, advanced in any order.  *)
(* An iterator is a threshold (in halves), a position, and the samples.    *)
(***************************************************************************)
EXTENDS Stats, TLC, Json, IOUtils
VARIABLES l, xs, its
vars == <<l, xs, its>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == 99999
n == Len(xs)
Near(q, unit, num, den) == LET d == q * den - unit * num IN -den <= d /\ d <= den
Root(m, num, den) == \* m / 8 is the root of num / den, up to 6.1 percent more, 0.2 percent less
   /\ (m + 1) * (m + 1) * den * 500 >= 64 * 498 * num
   /\ m * m * den * 500 <= 64 * 563 * num + 500 * den
Result(it, res) == \* the positions at which it may be after giving res
   {p \in (it.pos + 1)..(n + 1) :
      /\ IF p > n THEN res = None ELSE res = xs[p] /\ ~Outside(xs, xs[p], it.t, 2)
      /\ \A j \in (it.pos + 1)..(p - 1) : ~Inside(xs, xs[j], it.t, 2)}
Step(e) ==
  CASE e.op = "samples" -> xs' = e.xs /\ its' = <<>>
    [] e.op = "mean" -> Near(e.q, 1024, S1(xs), n) /\ UNCHANGED <<xs, its>>
    [] e.op = "variance" -> n > 1 /\ Near(e.q, 64, Spread(xs), n * (n - 1)) /\ UNCHANGED <<xs, its>>
    [] e.op = "stddev" -> n > 1 /\ Root(e.q, Spread(xs), n * (n - 1)) /\ UNCHANGED <<xs, its>>
    [] e.op = "trim" -> /\ e.id = Len(its) + 1 /\ (e.form = "trim" => e.t = 4)
                        /\ its' = Append(its, [t |-> e.t, pos |-> 0]) /\ xs' = xs
    [] e.op = "next" -> \E p \in Result(its[e.id], e.res) : its' = [its EXCEPT ![e.id].pos = IF p > n THEN n ELSE p] /\ xs' = xs
Init == l = 1 /\ xs = <<>> /\ its = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
