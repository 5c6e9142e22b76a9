----------------------------- MODULE VecIterMC -----------------------------
(* Up to Max iterators over one vector, cloned and advanced in any order; given: what each has given so far (its clones share the past) *)
EXTENDS VecIter, TLC
CONSTANT Max
VARIABLES its, given
vars == <<its, given>>
Vecs == {<<5, 6>>, <<5, 6, 7>>, <<4, 4>>}
Init == \E v \in Vecs : its = <<Start(v)>> /\ given = << <<>> >>
NextOf(i) == its' = [its EXCEPT ![i] = Advance(its[i])] /\ given' = [given EXCEPT ![i] = IF Len(@) < 6 THEN Append(@, Item(its[i])) ELSE @]
Clone(i) == Len(its) < Max /\ its' = Append(its, its[i]) /\ given' = Append(given, given[i])
Fresh == Len(its) < Max /\ its' = Append(its, Start(its[1].vec)) /\ given' = Append(given, <<>>)
Next == Fresh \/ \E i \in 1..Len(its) : NextOf(i) \/ Clone(i)
Spec == Init /\ [][Next]_vars
\* each component once, in order, and then None for ever
Order == \A i \in 1..Len(its) : LET n == Len(its[i].vec) IN \A j \in 1..Len(given[i]) : given[i][j] = IF j <= n THEN its[i].vec[j] ELSE None
Count == \A i \in 1..Len(its) : Len(given[i]) < 6 => Left(its[i]) = (IF Len(given[i]) > Len(its[i].vec) THEN 0 ELSE Len(its[i].vec) - Len(given[i]))
Independent == [][\E i \in 1..Len(its') : \A j \in 1..Len(its) : j # i => its'[j] = its[j]]_vars
Fused == [][\A i \in 1..Len(its) : Item(its[i]) = None => Item(its'[i]) = None]_vars
=============================================================================
