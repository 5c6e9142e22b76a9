----------------------------- MODULE Iterators -----------------------------
(***************************************************************************)
(* What the methods of an iterator give, for one that is to yield the      *)
(* items 1, 2, ... n and has yielded p of them.  Each method is a program   *)
(* that only calls next(): Do(m, k, n, p) is its result (a sequence of      *)
(* items, or of numbers) and the place it leaves the iterator at.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Ended(n, p) == p >= n
\* next() gives item p + 1, or nothing for ever
Give(n, p) == IF Ended(n, p) THEN [res |-> <<>>, at |-> p] ELSE [res |-> <<p + 1>>, at |-> p + 1]
RECURSIVE Nth(_, _, _), Drain(_, _, _), Taken(_, _, _, _), Until(_, _, _, _), Stepped(_, _, _, _), Amount(_, _, _), Latest(_, _, _)
Nth(k, n, p) == IF k = 0 \/ Ended(n, p) THEN Give(n, p) ELSE Nth(k - 1, n, p + 1)
Drain(n, p, acc) == LET g == Give(n, p) IN IF g.res = <<>> THEN [res |-> acc, at |-> p] ELSE Drain(n, g.at, acc \o g.res)
Amount(n, p, c) == LET g == Give(n, p) IN IF g.res = <<>> THEN [res |-> <<c>>, at |-> p] ELSE Amount(n, g.at, c + 1)
Latest(n, p, acc) == LET g == Give(n, p) IN IF g.res = <<>> THEN [res |-> acc, at |-> p] ELSE Latest(n, g.at, g.res)
\* the items before item k, which is taken, too; found tells whether there was one
Until(k, n, p, acc) == LET g == Give(n, p) IN
  IF g.res = <<>> THEN [res |-> acc, at |-> p, found |-> FALSE]
  ELSE IF g.res = <<k>> THEN [res |-> acc, at |-> g.at, found |-> TRUE] ELSE Until(k, n, g.at, acc \o g.res)
Stepped(k, n, p, acc) == LET g == Give(n, p) IN
  IF g.res = <<>> THEN [res |-> acc, at |-> p] ELSE Stepped(k, n, Taken(k - 1, n, g.at, <<>>).at, acc \o g.res)
Taken(k, n, p, acc) == IF k = 0 THEN [res |-> acc, at |-> p]
                       ELSE LET g == Give(n, p) IN IF g.res = <<>> THEN [res |-> acc, at |-> p] ELSE Taken(k - 1, n, g.at, acc \o g.res)
Out(r, a) == [res |-> r, at |-> a]
Truth(b) == <<IF b THEN 1 ELSE 0>>

Plain == {"next", "size_hint", "count", "last", "collect", "fold", "for_each", "reduce", "max", "min", "peek", "zip", "partition", "fuse"}
WithItem == {"find", "position", "any", "all", "try_fold", "try_for_each", "take_while", "map_while", "skip_while", "find_map", "filter"}  \* k: an item, or one there is not
WithNumber == {"nth", "take", "skip", "step_by"}                               \* k: a number
Methods == Plain \cup WithItem \cup WithNumber
Do(m, k, n, p) ==
  CASE m = "next" -> Give(n, p)
    [] m = "peek" -> Out(Give(n, p).res \o Drain(n, p, <<>>).res, n)           \* of peekable(): the next item, and then all
    [] m = "size_hint" -> Out(Amount(n, p, 0).res, p)                          \* bounds for this number
    [] m = "count" -> Amount(n, p, 0)
    [] m = "last" -> Latest(n, p, <<>>)
    [] m \in {"collect", "fold", "for_each", "reduce", "zip", "partition", "fuse"} -> Drain(n, p, <<>>)
    [] m = "max" -> Latest(n, p, <<>>)                                         \* of the items, which are in order
    [] m = "min" -> Out(Give(n, p).res, Drain(n, p, <<>>).at)
    [] m = "find" -> LET u == Until(k, n, p, <<>>) IN Out(IF u.found THEN <<k>> ELSE <<>>, u.at)
    [] m = "find_map" -> LET u == Until(k, n, p, <<>>) IN Out(IF u.found THEN <<k>> ELSE <<>>, u.at)
    [] m = "position" -> LET u == Until(k, n, p, <<>>) IN Out(IF u.found THEN <<Len(u.res)>> ELSE <<>>, u.at)
    [] m = "any" -> LET u == Until(k, n, p, <<>>) IN Out(Truth(u.found), u.at)   \* is one of them k
    [] m = "all" -> LET u == Until(k, n, p, <<>>) IN Out(Truth(~u.found), u.at)  \* is none of them k
    [] m \in {"try_fold", "try_for_each", "take_while", "map_while"} -> LET u == Until(k, n, p, <<>>) IN Out(u.res, u.at)
    [] m = "skip_while" -> LET u == Until(k, n, p, <<>>) IN Drain(n, u.at, IF u.found THEN <<k>> ELSE <<>>)
    [] m = "filter" -> LET u == Until(k, n, p, <<>>) IN Drain(n, u.at, u.res)   \* all but k
    [] m = "nth" -> Nth(k, n, p)
    [] m = "take" -> Taken(k, n, p, <<>>)
    [] m = "skip" -> Drain(n, Taken(k, n, p, <<>>).at, <<>>)
    [] m = "step_by" -> Stepped(k + 1, n, p, <<>>)                             \* steps of k + 1
=============================================================================
