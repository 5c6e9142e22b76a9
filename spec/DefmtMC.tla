------------------------------ MODULE DefmtMC ------------------------------
(***************************************************************************)
(* A writer that logs a value as a format string with some order of place- *)
(* holders, giving it the components in some order, each as a number or as *)
(* a nested value, in one write or in several; and the reader of Defmt.    *)
(* The reader shows the value if, and only if, the writer composed both    *)
(* orders to the identity.                                                 *)
(***************************************************************************)
EXTENDS Defmt, FiniteSets, TLC
VARIABLES kind, order, given, nested, split, todo, r
vars == <<kind, order, given, nested, split, todo, r>>

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Comps(n) == [k \in 1..n |-> 10 * k]
Ty == IF nested THEN "F32" ELSE "i8"
Component(n, i) ==
  IF nested THEN <<[e |-> "seq"], [e |-> "write", order |-> <<1>>], [e |-> "num", ty |-> "f32", v |-> Comps(n)[i]], [e |-> "end"]>>
  ELSE <<[e |-> "num", ty |-> "i8", v |-> Comps(n)[i]]>>
\* the tokens of a value: one write, or one for each component
Tokens(k, o, g, s) ==
  LET n == Count(k) IN
  <<[e |-> "seq"]>>
  \o (IF s THEN Flat([i \in 1..n |-> <<[e |-> "write", order |-> <<1>>]>> \o Component(n, g[o[i]])])
      ELSE <<[e |-> "write", order |-> o]>> \o Flat([i \in 1..n |-> Component(n, g[i])]))
  \o <<[e |-> "end"]>>

Init ==
  /\ kind \in {"f", "v2", "v3", "q"} /\ nested \in BOOLEAN /\ split \in BOOLEAN
  /\ order \in Perms(Count(kind)) /\ given \in Perms(Count(kind))
  /\ todo = Tokens(kind, order, given, split)
  /\ r = Start
Next ==
  /\ todo # <<>> /\ CanRead(r, todo[1])
  /\ r' = Read(r, todo[1])
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<kind, order, given, nested, split>>
Spec == Init /\ [][Next]_vars

\* the reader never gets stuck on what the writer wrote, nor is it done early
NotStuck == todo # <<>> => CanRead(r, todo[1])
DoneAtTheEnd == r.done <=> todo = <<>>
InOrder == \A k \in DOMAIN order : given[order[k]] = k
ShownInOrder == r.done => (ShowsValue(r.shown, kind, Ty, Comps(Count(kind))) <=> InOrder)
\* nothing is lost: what is shown is a permutation of the components
NothingLost == r.done => {r.shown[k].v : k \in DOMAIN r.shown} = {Comps(Count(kind))[k] : k \in 1..Count(kind)} /\ Len(r.shown) = Count(kind)
\* frames are nested: values and writes alternate
Alternate == \A i \in DOMAIN r.stack : r.stack[i].kind = (IF i % 2 = 1 THEN "seq" ELSE "write")
=============================================================================
