--------------------------- MODULE PlatformTrace ----------------------------
(***************************************************************************)
(* Recorded runs of all functions, one platform and build after another:   *)
(* each reports digests of the results, which must be those of the first   *)
(* that reported them, and reports all functions (those that are called on *)
(* more numbers natively, with names that end in "all", on native          *)
(* platforms).                                                             *)
(***************************************************************************)
EXTENDS Platform, TLC, Json, IOUtils
LOCAL Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, seen, known, here, done
vars == <<i, seen, known, here, done>>
E == Trace[i]
None == [name |-> "none"]
Init == i = 1 /\ seen = {} /\ known = [o \in {} |-> <<>>] /\ here = None /\ done = {}
Begin ==
  /\ E.e = "begin" /\ here = None
  /\ E.platform.name \notin {p.name : p \in seen}
  /\ here' = E.platform /\ done' = {}
  /\ UNCHANGED <<seen, known>>
Report ==
  /\ E.e = "report" /\ here # None /\ E.op \notin done /\ (E.deep => here.native)
  /\ E.digests # <<>>
  /\ IF E.op \in DOMAIN known
     THEN known[E.op] = E.digests /\ UNCHANGED known
     ELSE seen = {} /\ known' = TLCEval([o \in DOMAIN known \cup {E.op} |-> IF o = E.op THEN E.digests ELSE known[o]])
  /\ done' = done \cup {E.op}
  /\ UNCHANGED <<seen, here>>
\* all functions have been reported
End ==
  /\ E.e = "end" /\ here # None
  /\ done = IF here.native THEN DOMAIN known ELSE DOMAIN known \ {E.skips[k] : k \in DOMAIN E.skips}
  /\ seen' = seen \cup {here} /\ here' = None
  /\ UNCHANGED <<known, done>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Begin \/ Report \/ End)
Spec == Init /\ [][Next]_vars
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ LET e == Trace[TLCGet("stats").diameter] IN
               Print(<<"rejected event", TLCGet("stats").diameter, IF "op" \in DOMAIN e THEN e.op ELSE e>>, FALSE)
Complete == i > Len(Trace) => here = None /\ Covers(seen)
=============================================================================
