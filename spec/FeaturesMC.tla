----------------------------- MODULE FeaturesMC -----------------------------
(***************************************************************************)
(* Features are enabled and disabled one at a time.  All feature sets, and *)
(* a walk through them, in which each is met once, are written to ROWS.    *)
(***************************************************************************)
EXTENDS Features, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
VARIABLES on, api
vars == <<on, api>>
Init == on = {} /\ api = Exposed({})
Enable(f) == f \notin on /\ on' = on \cup {f} /\ api' = Exposed(on')
Disable(f) == f \in on /\ on' = on \ {f} /\ api' = Exposed(on')
Next == \E f \in Feature : Enable(f) \/ Disable(f)
Spec == Init /\ [][Next]_vars

TypeOK == on \subseteq Feature /\ api \subseteq Names
\* distinct items, that need features that exist
Wellformed == Cardinality(Names) = Cardinality(Items) /\ \A it \in Items : it.needs \subseteq Feature
\* features are additive, both in what they offer and in what they take away when disabled
Additive == [][on \subseteq on' => api \subseteq api']_vars
Exactly == [][\A n \in Differ(api, api') : \E it \in Items : it.name = n /\ Differ(on, on') \subseteq it.needs]_vars
\* the union of two sets offers the items of both, and those of their cooperation
Union == \A a \in SUBSET Feature :
  /\ Exposed(a) \cup Exposed(on) \subseteq Exposed(a \cup on)
  /\ Exposed(a) \cap Exposed(on) = Exposed(a \cap on)
\* each item appears at its needs and not before: the smallest sets that have it are its needs
Smallest == \A it \in Items : (it.name \in api /\ \A f \in on : it.name \notin Exposed(on \ {f})) => on = it.needs

\* a Gray code: each number differs from the next in one bit
Order == <<"quaternion", "vector", "statistics", "num-traits", "defmt">>
Bit(n, k) == (n \div (2 ^ (k - 1))) % 2
Gray(n) == {k \in 1..5 : Bit(n, k) # Bit(n, k + 1)}
Walk == [n \in 1..32 |-> {Order[k] : k \in Gray(n - 1)}]
WalkOK == {Walk[n] : n \in 1..32} = SUBSET Feature /\ \A n \in 1..31 : Cardinality(Differ(Walk[n], Walk[n + 1])) = 1
Rows ==
  /\ WalkOK
  /\ TLCGet("stats").distinct = 32
  /\ ndJsonSerialize(IOEnv.ROWS, [n \in 1..32 |->
       [on |-> SetToSeq(Walk[n]), exposed |-> SetToSeq(Exposed(Walk[n])), hidden |-> SetToSeq(Names \ Exposed(Walk[n])), groups |-> SetToSeq(Offered(Walk[n]))]])
=============================================================================
