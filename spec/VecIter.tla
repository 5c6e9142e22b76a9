------------------------------ MODULE VecIter ------------------------------
(***************************************************************************)
(* Iterators over the components of vectors, and the construction of       *)
(* vectors from iterators.  An iterator is a vector and a position; clones *)
(* are independent.  A vector comes out of exactly AXES items.             *)
(* The state: iterators by number.  VecIterTrace validates histories.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == 99999                     \* no component has this value
Item(it) == IF it.pos < Len(it.vec) THEN it.vec[it.pos + 1] ELSE None
Advance(it) == [it EXCEPT !.pos = IF it.pos < Len(it.vec) THEN it.pos + 1 ELSE it.pos]
Left(it) == Len(it.vec) - it.pos
Start(v) == [vec |-> v, pos |-> 0]
RECURSIVE Skip(_, _)
Skip(it, k) == IF k = 0 THEN it ELSE Skip(Advance(it), k - 1)
Get(v, i) == IF i \in 0..(Len(v) - 1) THEN v[i + 1] ELSE None
Builds(axes, items) == Len(items) = axes
=============================================================================
