---------------------------- MODULE IteratorsMC ----------------------------
(***************************************************************************)
(* An iterator over up to MaxItems items, on which any methods are called, *)
(* one after another.  Each result is that of the sequence it stands for.  *)
(* The table of all results is written to ROWS, and replayed on every kind *)
(* of iterator of the crate.                                               *)
(***************************************************************************)
EXTENDS Iterators, FiniteSets, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS MaxItems
VARIABLES n, p, taken, skipped
vars == <<n, p, taken, skipped>>
Min2(a, b) == IF a < b THEN a ELSE b
Between(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]
Arguments(m) == IF m \in Plain THEN {0} ELSE IF m \in WithItem THEN 1..(MaxItems + 1) ELSE 0..(MaxItems + 1)
ByNext == {"next", "nth", "find", "take", "collect"}
Init == n \in 0..MaxItems /\ p = 0 /\ taken = <<>> /\ skipped = {}
\* by calls of methods that give items: which ones were given, and which were passed over
Call(m, k) == LET d == Do(m, k, n, p) IN
  /\ p' = d.at /\ taken' = taken \o d.res /\ n' = n
  /\ skipped' = skipped \cup ((p + 1)..d.at \ {d.res[i] : i \in 1..Len(d.res)})
Next == \E m \in ByNext : \E k \in Arguments(m) : Call(m, k)
Spec == Init /\ [][Next]_vars

TypeOK == p \in 0..n /\ n <= MaxItems
\* every item is given once, in order, or was passed over
Increasing == \A i, j \in 1..Len(taken) : i < j => taken[i] < taken[j]
Complete == {taken[i] : i \in 1..Len(taken)} \cup skipped = 1..p /\ Len(taken) + Cardinality(skipped) = p
\* the programs of next() have the results of the sequence of the items that are left
Rest == Between(p + 1, n)
Left == n - p
Part(a, b) == SelectSeq(Rest, LAMBDA i : a <= i - p /\ i - p <= b)
In(k) == k > p /\ k <= n
Closed(m, k) ==
  CASE m = "next" -> Out(Part( 1, 1), Min2(p + 1, n))
    [] m = "peek" -> Out(Part( 1, 1) \o Rest, n)
    [] m = "size_hint" -> Out(<<Left>>, p)
    [] m = "count" -> Out(<<Left>>, n)
    [] m \in {"last", "max"} -> Out(Part(Left, Left), n)
    [] m = "min" -> Out(Part( 1, 1), n)
    [] m \in {"find", "find_map"} -> Out(IF In(k) THEN <<k>> ELSE <<>>, IF In(k) THEN k ELSE n)
    [] m = "position" -> Out(IF In(k) THEN <<k - p - 1>> ELSE <<>>, IF In(k) THEN k ELSE n)
    [] m = "any" -> Out(Truth(In(k)), IF In(k) THEN k ELSE n)
    [] m = "all" -> Out(Truth(~In(k)), IF In(k) THEN k ELSE n)
    [] m \in {"try_fold", "try_for_each", "take_while", "map_while"} -> Out(IF In(k) THEN Between(p + 1, k - 1) ELSE Rest, IF In(k) THEN k ELSE n)
    [] m = "skip_while" -> Out(IF In(k) THEN Between(k, n) ELSE <<>>, n)
    [] m = "filter" -> Out(SelectSeq(Rest, LAMBDA i : i # k), n)
    [] m = "nth" -> Out(Part( k + 1, Min2(k + 1, Left)), Min2(p + k + 1, n))
    [] m = "take" -> Out(Part( 1, Min2(k, Left)), Min2(p + k, n))
    [] m = "skip" -> Out(Part( k + 1, Left), n)
    [] m = "step_by" -> Out(SelectSeq(Rest, LAMBDA i : (i - p - 1) % (k + 1) = 0), n)
    [] OTHER -> Out(Rest, n)
Agrees == \A m \in Methods : \A k \in Arguments(m) : Do(m, k, n, p) = Closed(m, k)
\* two halves of an iteration are the whole
Halves == \A k \in 0..MaxItems : LET t == Do("take", k, n, p) IN t.res \o Do("collect", 0, n, t.at).res = Do("collect", 0, n, p).res

Table == {[n |-> a, p |-> b, m |-> m, k |-> k, res |-> Do(m, k, a, b).res, at |-> Do(m, k, a, b).at] :
            <<a, b, m, k>> \in {<<a, b, m, k>> \in (0..MaxItems) \X (0..MaxItems) \X Methods \X (0..(MaxItems + 1)) : b <= a /\ k \in Arguments(m)}}
Rows == TLCGet("stats").distinct > 50 /\ ndJsonSerialize(IOEnv.ROWS, SetToSeq(Table))
=============================================================================
