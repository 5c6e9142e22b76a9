----------------------------- MODULE PlatformMC -----------------------------
(***************************************************************************)
(* A register of a small format, held in the memory of all platforms, and  *)
(* a count of samples, held in a usize of each of them.  The same steps    *)
(* are taken everywhere, by the value: the values stay the same, although  *)
(* the bytes differ.  Steps by the bytes, and counts that do not fit, do   *)
(* not keep them the same.                                                 *)
(* The numbers on which the functions are called on real platforms are     *)
(* written to ROWS: [s, e, m, pair].                                       *)
(***************************************************************************)
EXTENDS Platform, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS Base, N, Widths, MaxCount
Platforms == [order : Orders, width : Widths]
Size == Base ^ N
VARIABLES mem, count
vars == <<mem, count>>
Of(p) == Load(mem[p], p.order, Base)
Everywhere(f(_)) == mem' = TLCEval([p \in Platforms |-> Store(f(Of(p)), p.order, Base, N)])
Init == \E v \in 0..(Size - 1) : mem = TLCEval([p \in Platforms |-> Store(v, p.order, Base, N)]) /\ count = [p \in Platforms |-> 0]
\* a sign bit, and an exponent and mantissa below it
Abs == Everywhere(LAMBDA v : v % (Size \div 2)) /\ UNCHANGED count
Negate == Everywhere(LAMBDA v : (v + Size \div 2) % Size) /\ UNCHANGED count
Next1 == Everywhere(LAMBDA v : (v + 1) % Size) /\ UNCHANGED count
Half == Everywhere(LAMBDA v : v \div 2) /\ UNCHANGED count
Sample == (\A p \in Platforms : count[p] < MaxCount) /\ count' = [p \in Platforms |-> (count[p] + 1) % 2 ^ p.width] /\ UNCHANGED mem
Next == Abs \/ Negate \/ Next1 \/ Half \/ Sample
Spec == Init /\ [][Next]_vars

TypeOK == \A p \in Platforms : mem[p] \in [1..N -> 0..(Base - 1)] /\ count[p] \in 0..(2 ^ p.width - 1)
\* what the property says: the values agree
SameValue == \A p, q \in Platforms : Of(p) = Of(q)
SameCount == \A p, q \in Platforms : count[p] = count[q]
RoundTrip == \A p \in Platforms : Store(Of(p), p.order, Base, N) = mem[p]
\* the order matters for the bytes, so it does for functions of bytes: only numbers with equal bytes do not tell
Bytes == \A p, q \in Platforms : p.order # q.order => ((mem[p] = mem[q]) <=> mem[p] = Turned(mem[p]))
\* taking the sign from the first byte is right in one order only
FirstByte == \A p \in Platforms : p.order = "big" => (mem[p][1] >= Base \div 2) = (Of(p) >= Size \div 2)
ASSUME \E v \in 0..(Size - 1) : (Store(v, "little", Base, N)[1] >= Base \div 2) # (v >= Size \div 2)
\* counts beyond the narrowest usize are not the same everywhere
ASSUME \A w \in Widths : MaxCount < 2 ^ w

\* all exponents with a few mantissas, and those next to powers of two, halves, and limits of integers with more of them
Mantissas == {0, 2796202, 8388607}
Fine == {1, 2, 2097152, 4194303, 4194304, 5592405, 6291456, 8388606}
Edges == {0, 1, 63, 103, 111, 112, 115, 123, 124, 125, 126, 127, 128, 129, 130, 131, 133, 134, 142, 143, 149, 150, 151, 157, 158, 159, 189, 190, 191, 253, 254, 255}
Few == {0, 4194304, 8388607}
Pairs == {0, 1, 112, 126, 127, 128, 131, 150, 158, 190, 254, 255}
Row(s, e, m) == [s |-> s, e |-> e, m |-> m, pair |-> e \in Pairs /\ m \in Few]
Corners == {Row(s, e, m) : s \in {0, 1}, e \in 0..255, m \in Mantissas} \cup {Row(s, e, m) : s \in {0, 1}, e \in Edges, m \in Fine}
Rows == /\ \A r \in Corners : r.m < 2 ^ 23
        /\ Cardinality({r \in Corners : r.pair}) = 2 * Cardinality(Few) * Cardinality(Pairs)
        /\ TLCGet("stats").distinct = Size * (MaxCount + 1)
        /\ ndJsonSerialize(IOEnv.ROWS, SetToSeq(Corners))
=============================================================================
