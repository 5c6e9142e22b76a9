------------------------------- MODULE Defmt -------------------------------
(***************************************************************************)
(* What a reader of defmt's wire format shows of a value.  The bytes are a *)
(* stream of tokens:                                                       *)
(*   seq            a nested value begins: a sequence of writes            *)
(*   write(order)   a format string: its arguments follow in the order of  *)
(*                  their indices, and are shown in the order of the text; *)
(*                  order[k] is the (one-based) argument shown k-th        *)
(*   num(ty, v)     an argument: a number (its bits as a 32-bit integer)   *)
(*   end            the nested value is complete                           *)
(* The reader is a stack of frames: of nested values, with the numbers     *)
(* shown so far, and of writes, with the arguments read so far.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Seq0 == [kind |-> "seq", shown |-> <<>>]
Write0(order) == [kind |-> "write", order |-> order, args |-> <<>>]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Arguments(order) == IF order = <<>> THEN 0 ELSE CHOOSE n \in {order[k] : k \in DOMAIN order} : \A k \in DOMAIN order : order[k] <= n
\* a write that has all of its arguments shows them
RECURSIVE Settle(_)
Settle(st) ==
  IF st # <<>> /\ Last(st).kind = "write" /\ Len(Last(st).args) = Arguments(Last(st).order)
  THEN LET w == Last(st)
           s == st[Len(st) - 1]
       IN  SubSeq(st, 1, Len(st) - 2) \o <<[s EXCEPT !.shown = @ \o Flat([k \in DOMAIN w.order |-> w.args[w.order[k]]])]>>
  ELSE st
Give(st, arg) == Settle(Front(st) \o <<[Last(st) EXCEPT !.args = Append(@, arg)]>>)

\* the reader: [stack, done, shown]; a token it cannot read leaves it stuck
Start == [stack |-> <<>>, done |-> FALSE, shown |-> <<>>]
CanRead(r, t) ==
  /\ ~r.done
  /\ CASE t.e = "seq"   -> (r.stack # <<>> => Last(r.stack).kind = "write")
       [] t.e = "write" -> r.stack # <<>> /\ Last(r.stack).kind = "seq"
       [] t.e = "num"   -> r.stack # <<>> /\ Last(r.stack).kind = "write"
       [] t.e = "end"   -> r.stack # <<>> /\ Last(r.stack).kind = "seq"
       [] OTHER -> FALSE
Read(r, t) ==
  CASE t.e = "seq"   -> [r EXCEPT !.stack = Append(@, Seq0)]
    [] t.e = "write" -> [r EXCEPT !.stack = Settle(Append(@, Write0(t.order)))]
    [] t.e = "num"   -> [r EXCEPT !.stack = Give(@, <<[ty |-> t.ty, v |-> t.v]>>)]
    [] t.e = "end"   -> IF Len(r.stack) = 1 THEN [stack |-> <<>>, done |-> TRUE, shown |-> Last(r.stack).shown]
                        ELSE [r EXCEPT !.stack = Give(Front(@), Last(@).shown)]

\* a value: its kind, the type of its components, and these
Count(kind) == CASE kind = "f" -> 1 [] kind = "v2" -> 2 [] kind = "v3" -> 3 [] kind = "q" -> 4
Unsigned == {"u8", "u16", "u32"}
IsNaN(b) == b > 2139095040 \/ (b < 0 /\ b + 2147483647 >= 2139095040)
\* a component is shown by its own type, or one that holds the same number
Shows(s, ty, c) ==
  IF ty \in {"f32", "F32"} THEN s.ty = "f32" /\ (s.v = c \/ (IsNaN(c) /\ IsNaN(s.v)))
  ELSE s.v = c /\ (IF c < 0 THEN (s.ty \in Unsigned) = (ty \in Unsigned) ELSE s.ty # "f32")
ShowsValue(shown, kind, ty, comps) ==
  /\ Len(comps) = Count(kind)
  /\ Len(shown) = Len(comps)
  /\ \A k \in DOMAIN comps : Shows(shown[k], ty, comps[k])
=============================================================================
