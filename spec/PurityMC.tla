------------------------------ MODULE PurityMC ------------------------------
(***************************************************************************)
(* Implementations of the specification Purity that share memory between   *)
(* threads, with every interleaving of their reads and writes:             *)
(*   pure    no memory                                                     *)
(*   memo    a cell for the last call and its result, read and written at  *)
(*           once: the results are the same                                *)
(*   torn    two cells, one for the call and one for its result            *)
(*   shared  one cell for two functions, found by the argument             *)
(*   warm    the next call starts from the last result                     *)
(* The kinds of Good refine the specification; each of the others reaches  *)
(* a state in which a result is refused (counted by register 1, required   *)
(* by the postcondition), torn with two threads only.                      *)
(***************************************************************************)
EXTENDS Purity, FiniteSets
CONSTANTS Threads, Kinds, Good, Limit
VARIABLES kind, key, val, pc, got, n
vars == <<calls, kind, key, val, pc, got, n>>
\* calls 1, 2: a function with the arguments 1 and 2; calls 3, 4: another one
Ids == 1..4
Arg(c) == IF c > 2 THEN c - 2 ELSE c
Value(c) == 10 + c
NoKey == 0
Nothing == 0
Init == /\ known = << >> /\ open = [t \in Threads |-> Idle] /\ kind \in Kinds
        /\ key = NoKey /\ val = Nothing /\ pc = [t \in Threads |-> "idle"] /\ got = [t \in Threads |-> Nothing] /\ n = 0
Start(t) == /\ pc[t] = "idle" /\ n < Limit /\ n' = n + 1
            /\ \E c \in Ids : Begin(t, c)
            /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<kind, key, val, got>>
Go(t, where, g) == pc' = [pc EXCEPT ![t] = where] /\ got' = [got EXCEPT ![t] = g] /\ UNCHANGED <<calls, kind, n>>
Key(c) == IF kind = "shared" THEN Arg(c) ELSE c
\* looks at the memory (the key only, if it is torn)
Look(t) == LET c == open[t] IN
  /\ pc[t] = "look" /\ UNCHANGED <<key, val>>
  /\ IF kind = "pure" THEN Go(t, "ret", Value(c))
     ELSE IF kind = "warm" THEN Go(t, "put", IF val = Nothing \/ val = Value(c) THEN Value(c) ELSE Value(c) + 100)
     ELSE IF key # Key(c) THEN Go(t, "put", Value(c))
     ELSE IF kind = "torn" THEN Go(t, "load", Nothing)
     ELSE Go(t, "ret", val)
Load(t) == pc[t] = "load" /\ Go(t, "ret", val) /\ UNCHANGED <<key, val>>
Put(t) == /\ pc[t] = "put"
          /\ IF kind = "torn" THEN key' = Key(open[t]) /\ val' = val /\ Go(t, "put2", got[t])
             ELSE key' = Key(open[t]) /\ val' = got[t] /\ Go(t, "ret", got[t])
Put2(t) == pc[t] = "put2" /\ val' = got[t] /\ key' = key /\ Go(t, "ret", got[t])
Finish(t) == /\ pc[t] = "ret" /\ Return(t, got[t])
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<kind, key, val, got, n>>
Next == \E t \in Threads : Start(t) \/ Look(t) \/ Load(t) \/ Put(t) \/ Put2(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
Refused == \E t \in Threads : pc[t] = "ret" /\ ~Agrees(open[t], got[t])
Refines == kind \in Good => ~Refused
\* the kinds whose results were refused, by register
Number == [pure |-> 11, memo |-> 12, torn |-> 13, shared |-> 14, warm |-> 15]
Note == IF Refused THEN TLCSet(Number[kind], 1) ELSE TRUE
ASSUME \A i \in 11..15 : TLCSet(i, 0)
Exposed == TLCGet("stats").diameter > 0 /\ \A k \in Kinds \ Good : TLCGet(Number[k]) = 1
=============================================================================
