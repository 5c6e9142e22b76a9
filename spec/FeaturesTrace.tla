--------------------------- MODULE FeaturesTrace ----------------------------
(***************************************************************************)
(* Recorded builds: a walk through the feature sets, with what a user can  *)
(* name in each of them, and digests of the results of the functions.      *)
(***************************************************************************)
EXTENDS Features, TLC, Json, IOUtils
LOCAL Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, on, pending, known
vars == <<i, on, pending, known>>
Set(s) == {s[k] : k \in DOMAIN s}
E == Trace[i]
Init == i = 1 /\ on = {} /\ pending = {} /\ known = [g \in {} |-> ""]
Build ==
  /\ E.e = "build" /\ pending = {}
  /\ IF i = 1 THEN Set(E.on) = {} ELSE Cardinality(Differ(on, Set(E.on))) = 1
  /\ E.builds
  /\ Set(E.exposed) = Exposed(Set(E.on))
  /\ Set(E.hidden) = Names \ Exposed(Set(E.on))
  /\ on' = Set(E.on) /\ pending' = Offered(on')
  /\ UNCHANGED known
\* the first feature set that has a group determines its results for all
Result ==
  /\ E.e = "result" /\ E.group \in pending
  /\ (E.group \in DOMAIN known => known[E.group] = E.digest)
  /\ known' = [g \in DOMAIN known \cup {E.group} |-> IF g = E.group THEN E.digest ELSE known[g]]
  /\ pending' = pending \ {E.group}
  /\ UNCHANGED on
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Build \/ Result)
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ Print(<<"rejected event", TLCGet("stats").diameter, Trace[TLCGet("stats").diameter]>>, FALSE)
Complete == i > Len(Trace) => pending = {} /\ DOMAIN known = {g.name : g \in Groups}
=============================================================================
