------------------------------ MODULE ValuesMC ------------------------------
(***************************************************************************)
(* All values of a few components: equality is an equivalence but for NaN, *)
(* a congruence of neither signs of zeros nor user's types, and copies are *)
(* independent.  The table of equal numbers is emitted.                    *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils
CONSTANT MCKind, MCComp
Numbers == CASE MCComp = "float" -> {[s |-> 0, m |-> 0], [s |-> 1, m |-> 0], [s |-> 0, m |-> 1], [s |-> 1, m |-> InfBits], [s |-> 0, m |-> InfBits + 1], [s |-> 1, m |-> InfBits + 1]}
             [] MCComp = "int" -> {[s |-> 0, m |-> 0], [s |-> 0, m |-> 1], [s |-> 1, m |-> 1]}
             [] MCComp = "key" -> {[s |-> s, m |-> m] : s \in {0, 1}, m \in {0, 1}}
All == [1..Axes(MCKind) -> Numbers]
Init == kind = MCKind /\ comp = MCComp /\ regs = [r \in Registers |-> Default(MCKind, MCComp)]
Next == \/ \E r, q \in Registers : Copy(r, q)
        \/ \E r \in Registers, i \in 1..Axes(MCKind), c \in Numbers : Set(r, i, c)
Spec == Init /\ [][Next]_<<kind, comp, regs>>
HasNan(v) == comp = "float" /\ \E i \in DOMAIN v : IsNaN(v[i].m)
Eq(r, q) == Equal(regs[r], regs[q], comp)
Reflexive == \A r \in Registers : Eq(r, r) = ~HasNan(regs[r])
Symmetric == \A r, q \in Registers : Eq(r, q) = Eq(q, r)
Transitive == \A r, q, p \in Registers : Eq(r, q) /\ Eq(q, p) => Eq(r, p)
\* one component is enough to differ
OneDiffers == \A r, q \in Registers : ~Eq(r, q) = (\E i \in 1..Axes(kind) : ~Same(regs[r][i], regs[q][i], comp))
\* copying changes one register, and gives an equal value (without NaN)
Copies == [][\A r, q \in Registers : Copy(r, q) => (HasNan(regs'[r]) \/ Equal(regs'[r], regs'[q], comp)) /\ \A p \in Registers \ {r} : regs'[p] = regs[p]]_regs
\* different texts of components give different texts
Texts == {"0", "1", "-1"}
ASSUME \A t, u \in [1..Axes(MCKind) -> Texts] : t # u => Debug(MCKind, t) # Debug(MCKind, u)
\* the table for numbers of the format that the code has
SPECIAL == <<[s |-> 0, m |-> 0], [s |-> 1, m |-> 0], [s |-> 0, m |-> 1], [s |-> 1, m |-> 1], [s |-> 0, m |-> 2], [s |-> 0, m |-> Bias * 2^P], [s |-> 1, m |-> Bias * 2^P],
             [s |-> 0, m |-> Bias * 2^P + 1], [s |-> 0, m |-> InfBits - 1], [s |-> 0, m |-> InfBits], [s |-> 1, m |-> InfBits], [s |-> 0, m |-> InfBits + 1], [s |-> 1, m |-> InfBits + 2^(P - 1)]>>
NSp == Len(SPECIAL)
B(b) == IF b THEN 1 ELSE 0
Rows == [j \in 1..(NSp * NSp) |-> LET a == SPECIAL[((j - 1) \div NSp) + 1]  b == SPECIAL[((j - 1) % NSp) + 1] IN [fn |-> "same", a |-> a, b |-> b, eq |-> B(Same(a, b, "float"))]]
Emitted == TLCGet("stats").distinct > 10 /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
