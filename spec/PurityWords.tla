---------------------------- MODULE PurityWords ----------------------------
(***************************************************************************)
(* Which sequences of calls show that a library remembers something?       *)
(* A library with memory is a machine with n states that, for the calls A  *)
(* and B, gives the fresh result or another one, and goes on to a state.   *)
(* TLC runs every machine (up to n states) side by side with the           *)
(* specification, whose results are the ones of a fresh process; it is     *)
(* impure if it can ever give another result, and then it does so within n *)
(* calls.  The words of length Longest are emitted: from a fresh process,  *)
(* they expose each impure machine of up to Longest states.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS States, Longest                \* memory states; length of the words
VARIABLES next, out, m, n, good          \* the machine (its tables), its state, calls made, all results fresh
vars == <<next, out, m, n, good>>
Calls == {1, 2}
Mem == 1..States
Init == /\ next \in [Mem \X Calls -> Mem] /\ out \in [Mem \X Calls -> BOOLEAN]
        /\ \A c \in Calls : out[<<1, c>>]         \* fresh results are those of the initial state
        /\ m = 1 /\ n = 0 /\ good = TRUE
Next == n < Longest /\ \E c \in Calls :
  /\ good' = (good /\ out[<<m, c>>]) /\ m' = next[<<m, c>>] /\ n' = n + 1 /\ UNCHANGED <<next, out>>
Spec == Init /\ [][Next]_vars
\* the states that the machine can get to at all
RECURSIVE Reach(_, _)
Reach(S, i) == IF i = 0 THEN S ELSE Reach(S \cup {next[<<s, c>>] : s \in S, c \in Calls}, i - 1)
Impure == \E s \in Reach({1}, States) : \E c \in Calls : ~out[<<s, c>>]
RECURSIVE Run(_, _)
Run(s, w) == w # << >> /\ (~out[<<s, Head(w)>>] \/ Run(next[<<s, Head(w)>>], Tail(w)))
Words == TLCEval([1..Longest -> Calls])
Word(w) == [i \in 1..Longest |-> w[i]]
\* some word exposes each impure machine, and none accuses a pure one
Complete == n = 0 => (Impure <=> \E w \in Words : Run(1, Word(w)))
\* a pure machine never gives anything but the fresh results
Sound == ~Impure => good
\* the words go everywhere
Rows == SetToSeq({[word |-> Word(w)] : w \in Words})
Emit == IF "ROWS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.ROWS, Rows) ELSE TRUE
Emitted == TLCGet("stats").diameter > 0 /\ Emit
=============================================================================
