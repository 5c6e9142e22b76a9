---------------------------- MODULE SamplesTrace ----------------------------
(***************************************************************************)
(* Recorded statistics of samples of all magnitudes, and trimming          *)
(* iterators, advanced in any order: which sample each yields (its         *)
(* position, or 0 for none).                                               *)
(***************************************************************************)
EXTENDS Samples, Json, IOUtils
VARIABLES l, t, its
vars == <<l, t, its>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the iterator it may yield the sample at position p, or nothing more (0)
Yields(it, p) ==
  LET skipped == IF p = 0 THEN (it.pos + 1)..t.n ELSE (it.pos + 1)..(p - 1) IN
  /\ p = 0 \/ (p \in (it.pos + 1)..t.n /\ ~Dropped(t, p, it.z))
  /\ \A i \in skipped : ~Kept(t, i, it.z)
Step(e) ==
  CASE e.op = "samples" -> t' = Summary(e.xs) /\ its' = <<>>
    [] e.op = "mean" -> MeanIs(t, e.r) = TRUE /\ UNCHANGED <<t, its>>
    [] e.op = "variance" -> (t.n > 1 /\ (t.fits => VarianceIs(t, e.r))) = TRUE /\ UNCHANGED <<t, its>>
    [] e.op = "stddev" -> (t.n > 1 /\ (t.fits => StdDevIs(t, e.r))) = TRUE /\ UNCHANGED <<t, its>>
    [] e.op = "trim" -> /\ e.id = Len(its) + 1 /\ (e.form = "trim" => e.z = [s |-> 0, m |-> (Bias + 1) * 2^P])
                        /\ its' = Append(its, [z |-> e.z, pos |-> 0]) /\ UNCHANGED t
    [] e.op = "next" -> /\ (t.n > 1 /\ t.fits => Yields(its[e.id], e.p)) = TRUE
                        /\ its' = [its EXCEPT ![e.id].pos = IF e.p = 0 THEN t.n ELSE e.p] /\ UNCHANGED t
Init == l = 1 /\ t = Summary(<<[s |-> 0, m |-> 0]>>) /\ its = <<>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
