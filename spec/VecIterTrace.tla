---------------------------- MODULE VecIterTrace ----------------------------
(* Histories of iterators (by number, with the vectors they come from) and of constructions: res, or 99999 for None, 88888 for a panic *)
EXTENDS VecIter, TLC, Json, IOUtils
VARIABLES l, its
vars == <<l, its>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Panic == 88888
Axes(v) == Len(v)
Check(e) ==
  CASE e.op = "iter" -> e.id = Len(its) + 1
    [] e.op = "clone" -> e.id = Len(its) + 1 /\ e.of \in 1..Len(its)
    [] e.op = "next" -> e.res = Item(its[e.id])
    [] e.op = "nth" -> e.res = Item(Skip(its[e.id], e.k))                   \* k items, and the one after them
    [] e.op = "count" -> e.res = Left(its[e.id])                            \* of a clone
    [] e.op = "last" -> e.res = IF Left(its[e.id]) = 0 THEN None ELSE its[e.id].vec[Len(its[e.id].vec)]
    [] e.op = "collect" -> e.items = SubSeq(its[e.id].vec, its[e.id].pos + 1, Len(its[e.id].vec))
    [] e.op = "size_hint" -> e.lo <= Left(its[e.id]) /\ Left(its[e.id]) <= e.hi
    [] e.op = "get" -> e.res = Get(e.vec, e.k)
    [] e.op = "index" -> e.res = IF Get(e.vec, e.k) = None THEN Panic ELSE Get(e.vec, e.k)
    [] e.op = "build" -> e.form \in {"slice", "iter", "filter", "from_fn", "chain", "skip", "resumed", "owned"} /\ IF Builds(e.axes, e.items) THEN e.out = e.items ELSE e.out = <<Panic>>
    [] e.op = "reset" -> TRUE
Effect(e) ==
  CASE e.op = "iter" -> Append(its, Start(e.vec))
    [] e.op = "clone" -> Append(its, its[e.of])
    [] e.op = "next" -> [its EXCEPT ![e.id] = Advance(@)]
    [] e.op = "nth" -> [its EXCEPT ![e.id] = Skip(@, e.k + 1)]
    [] e.op = "reset" -> <<>>
    [] OTHER -> its
Init == l = 1 /\ its = <<>>
Next == /\ l <= Len(Trace) /\ LET e == Trace[l] IN Check(e) /\ its' = Effect(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
=============================================================================
