------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Calls of a library that threads make: what one returns is a function of *)
(* its arguments, that is, of nothing that happened before or meanwhile.   *)
(* known has the results of the calls that have returned; open the call    *)
(* that each thread is in.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES known, open
calls == <<known, open>>
Idle == 0                                         \* calls are positive numbers
Begin(t, c) == open[t] = Idle /\ open' = [open EXCEPT ![t] = c] /\ UNCHANGED known
Agrees(c, r) == c \in DOMAIN known => known[c] = r
Return(t, r) == /\ open[t] # Idle /\ Agrees(open[t], r)
                /\ known' = IF open[t] \in DOMAIN known THEN known ELSE (open[t] :> r) @@ known
                /\ open' = [open EXCEPT ![t] = Idle]
=============================================================================
