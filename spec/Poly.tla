-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The products of vectors and quaternions, as polynomials in the          *)
(* components of their arguments.  A polynomial is a function from         *)
(* monomials (sorted sequences of variables) to coefficients that are not  *)
(* zero.  As they are symbolic, a law that TLC finds to hold of them holds *)
(* for all numbers.  The definitions are emitted, term by term, for the    *)
(* comparison with what the code computes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
\* variables: vectors a, b, c; a scalar k; quaternions p, q, r
Names == << "ax", "ay", "az", "bx", "by", "bz", "cx", "cy", "cz", "k",
            "pw", "px", "py", "pz", "qw", "qx", "qy", "qz", "rw", "rx", "ry", "rz" >>
Zero == [m \in {} |-> 0]
Const(c) == IF c = 0 THEN Zero ELSE [m \in {<<>>} |-> c]
Var(i) == [m \in {<<i>>} |-> 1]
At(P, m) == IF m \in DOMAIN P THEN P[m] ELSE 0
Add(P, Q) == LET D == {m \in DOMAIN P \cup DOMAIN Q : At(P, m) + At(Q, m) # 0} IN [m \in D |-> At(P, m) + At(Q, m)]
Scale(c, P) == IF c = 0 THEN Zero ELSE [m \in DOMAIN P |-> c * P[m]]
Sub(P, Q) == Add(P, Scale(-1, Q))
Merge(m, n) == SortSeq(m \o n, <)
RECURSIVE SumOver(_, _, _, _)
SumOver(S, P, Q, t) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN P[s[1]] * Q[s[2]] + SumOver(S \ {s}, P, Q, t)
Mul(P, Q) == LET pairs == (DOMAIN P) \X (DOMAIN Q)
                 prod == [s \in pairs |-> Merge(s[1], s[2])]
                 coef == [t \in {prod[s] : s \in pairs} |-> SumOver({s \in pairs : prod[s] = t}, P, Q, t)]
             IN [t \in {u \in DOMAIN coef : coef[u] # 0} |-> coef[t]]

\* vectors are sequences of polynomials
V(i, n) == [j \in 1..n |-> Var(i + j - 1)]
a == V(1, 3)  b == V(4, 3)  c == V(7, 3)  k == Var(10)
a2 == V(1, 2)  b2 == V(4, 2)
p == V(11, 4)  q == V(15, 4)  r == V(19, 4)
VAdd(u, v) == [i \in DOMAIN u |-> Add(u[i], v[i])]
VSub(u, v) == [i \in DOMAIN u |-> Sub(u[i], v[i])]
VScale(P, u) == [i \in DOMAIN u |-> Mul(P, u[i])]
RECURSIVE DotN(_, _, _)
DotN(u, v, n) == IF n = 0 THEN Zero ELSE Add(DotN(u, v, n - 1), Mul(u[n], v[n]))
Dot(u, v) == DotN(u, v, Len(u))
Cross(u, v) == << Sub(Mul(u[2], v[3]), Mul(u[3], v[2])), Sub(Mul(u[3], v[1]), Mul(u[1], v[3])), Sub(Mul(u[1], v[2]), Mul(u[2], v[1])) >>
Perp(u, v) == Sub(Mul(u[1], v[2]), Mul(u[2], v[1]))
Lift(u) == <<u[1], u[2], Zero>>
\* quaternions (w, x, y, z), multiplied by the table of the basis 1, i, j, k: Basis[s][t] = <<sign, index>>
Basis == << << <<1,1>>, <<1,2>>, <<1,3>>, <<1,4>> >>,
            << <<1,2>>, <<-1,1>>, <<1,4>>, <<-1,3>> >>,
            << <<1,3>>, <<-1,4>>, <<-1,1>>, <<1,2>> >>,
            << <<1,4>>, <<1,3>>, <<-1,2>>, <<-1,1>> >> >>
RECURSIVE HSum(_, _, _)
HSum(S, u, v) == IF S = {} THEN Zero
                 ELSE LET s == CHOOSE s \in S : TRUE IN Add(Scale(Basis[s[1]][s[2]][1], Mul(u[s[1]], v[s[2]])), HSum(S \ {s}, u, v))
HMul(u, v) == [i \in 1..4 |-> HSum({s \in (1..4) \X (1..4) : Basis[s[1]][s[2]][2] = i}, u, v)]
Conj(u) == <<u[1], Scale(-1, u[2]), Scale(-1, u[3]), Scale(-1, u[4])>>
Norm(u) == Dot(u, u)
Pure(v) == <<Zero, v[1], v[2], v[3]>>
Unit(i) == [j \in 1..4 |-> IF i = j THEN Const(1) ELSE Zero]
Vec(u) == <<u[2], u[3], u[4]>>
Turn(u, v) == HMul(HMul(u, Pure(v)), Conj(u))       \* q v q*
Rotate(u, v) == Vec(Turn(u, v))
W == 1  X == 2  Y == 3  Z == 4
Two(P, Q) == Scale(2, Mul(P, Q))

Laws == <<"dot", "cross", "lagrange", "jacobi", "triple", "plane", "basis", "assoc", "unit", "distrib", "conj", "norm", "pure",
          "rotate", "isometry", "compose", "axis", "euler", "onto", "halfturn">>
Holds(law) ==
  CASE law = "dot" -> Dot(a, b) = Dot(b, a) /\ Dot(VAdd(a, c), b) = Add(Dot(a, b), Dot(c, b)) /\ Dot(VScale(k, a), b) = Mul(k, Dot(a, b))
    [] law = "cross" -> Cross(a, b) = VSub(<<Zero, Zero, Zero>>, Cross(b, a)) /\ Dot(Cross(a, b), a) = Zero /\ Dot(Cross(a, b), b) = Zero
                        /\ Cross(VAdd(a, c), b) = VAdd(Cross(a, b), Cross(c, b)) /\ Cross(a, a) = <<Zero, Zero, Zero>>
    [] law = "lagrange" -> Dot(Cross(a, b), Cross(a, b)) = Sub(Mul(Dot(a, a), Dot(b, b)), Mul(Dot(a, b), Dot(a, b)))
    [] law = "jacobi" -> VAdd(VAdd(Cross(a, Cross(b, c)), Cross(b, Cross(c, a))), Cross(c, Cross(a, b))) = <<Zero, Zero, Zero>>
    [] law = "triple" -> Dot(a, Cross(b, c)) = Dot(Cross(a, b), c) /\ Dot(a, Cross(b, c)) = Dot(b, Cross(c, a))
    [] law = "plane" -> /\ Cross(Lift(a2), Lift(b2)) = <<Zero, Zero, Perp(a2, b2)>>
                        /\ Add(Mul(Perp(a2, b2), Perp(a2, b2)), Mul(Dot(a2, b2), Dot(a2, b2))) = Mul(Dot(a2, a2), Dot(b2, b2))
    [] law = "basis" -> LET m1 == <<Const(-1), Zero, Zero, Zero>> IN
                        \A i \in 2..4 : HMul(Unit(i), Unit(i)) = m1 /\ HMul(HMul(Unit(2), Unit(3)), Unit(4)) = m1
    [] law = "assoc" -> HMul(HMul(p, q), r) = HMul(p, HMul(q, r))
    [] law = "unit" -> HMul(Unit(1), q) = q /\ HMul(q, Unit(1)) = q
    [] law = "distrib" -> HMul(p, VAdd(q, r)) = VAdd(HMul(p, q), HMul(p, r)) /\ HMul(VSub(p, q), r) = VSub(HMul(p, r), HMul(q, r))
                          /\ HMul(VScale(k, p), q) = VScale(k, HMul(p, q))
    [] law = "conj" -> Conj(HMul(p, q)) = HMul(Conj(q), Conj(p)) /\ HMul(q, Conj(q)) = <<Norm(q), Zero, Zero, Zero>>
    [] law = "norm" -> Norm(HMul(p, q)) = Mul(Norm(p), Norm(q)) /\ Dot(p, q) = Dot(q, p) /\ HMul(p, Conj(q))[1] = Dot(p, q)
    [] law = "pure" -> HMul(Pure(a), Pure(b)) = <<Scale(-1, Dot(a, b))>> \o Cross(a, b)
    [] law = "rotate" -> Turn(q, a)[1] = Zero /\ Rotate(q, VAdd(a, b)) = VAdd(Rotate(q, a), Rotate(q, b))
    [] law = "isometry" -> Dot(Rotate(q, a), Rotate(q, b)) = Mul(Mul(Norm(q), Norm(q)), Dot(a, b))
    [] law = "compose" -> Rotate(HMul(p, q), a) = Rotate(p, Rotate(q, a))
    [] law = "axis" -> Rotate(q, Vec(q)) = VScale(Norm(q), Vec(q))
    [] law = "euler" ->          \* the entries that to_euler uses are those of the rotation matrix, up to the norm
         LET col(i) == Rotate(q, [j \in 1..3 |-> IF i = j THEN Const(1) ELSE Zero])
             less(P) == Sub(Norm(q), Scale(2, P))
         IN /\ col(2)[3] = Add(Two(q[W], q[X]), Two(q[Y], q[Z])) /\ col(3)[3] = less(Add(Mul(q[X], q[X]), Mul(q[Y], q[Y])))
            /\ Scale(-1, col(1)[3]) = Sub(Two(q[W], q[Y]), Two(q[X], q[Z]))
            /\ col(1)[2] = Add(Two(q[W], q[Z]), Two(q[X], q[Y])) /\ col(1)[1] = less(Add(Mul(q[Y], q[Y]), Mul(q[Z], q[Z])))
    [] law = "onto" ->           \* with s = k, s^2 = |a|^2 |b|^2: (s + a.b, a x b) turns a to the direction of b
         LET d == Dot(a, b)
             h == <<Add(k, d)>> \o Cross(a, b)
         IN Rotate(h, a) = VAdd(VScale(Sub(Mul(k, k), Mul(Norm(a), Norm(b))), a), VScale(Scale(2, Mul(Add(k, d), Norm(a))), b))
    [] law = "halfturn" ->       \* around an axis u perpendicular to a, it becomes -a
         \A u \in { <<Scale(-1, a[2]), a[1], Zero>>, <<Zero, Scale(-1, a[3]), a[2]>> } :
            Dot(u, a) = Zero /\ Rotate(Pure(u), a) = VScale(Scale(-1, Norm(u)), a)

VARIABLE n
Init == n = 1
Next == n < Len(Laws) /\ n' = n + 1
Spec == Init /\ [][Next]_n
AllHold == Holds(Laws[n])

RECURSIVE TermsOf(_, _)
TermsOf(P, D) == IF D = {} THEN <<>> ELSE LET m == CHOOSE m \in D : TRUE IN <<[c |-> P[m], v |-> [i \in 1..Len(m) |-> Names[m[i]]]]>> \o TermsOf(P, D \ {m})
Fn(name, res) == [i \in 1..Len(res) |-> [fn |-> name, comp |-> i - 1, of |-> Len(res), terms |-> TermsOf(res[i], DOMAIN res[i])]]
Rows == Fn("dot2", <<Dot(a2, b2)>>) \o Fn("perp", <<Perp(a2, b2)>>) \o Fn("cross2", Cross(Lift(a2), Lift(b2))) \o Fn("magsq2", <<Dot(a2, a2)>>)
     \o Fn("dot3", <<Dot(a, b)>>) \o Fn("cross3", Cross(a, b)) \o Fn("magsq3", <<Dot(a, a)>>)
     \o Fn("add3", VAdd(a, b)) \o Fn("sub3", VSub(a, b)) \o Fn("mul3", VScale(k, a))
     \o Fn("add2", VAdd(a2, b2)) \o Fn("sub2", VSub(a2, b2)) \o Fn("mul2", VScale(k, a2))
     \o Fn("qmul", HMul(p, q)) \o Fn("qadd", VAdd(p, q)) \o Fn("qsub", VSub(p, q)) \o Fn("qscale", VScale(k, p)) \o Fn("conj", Conj(p))
     \o Fn("qdot", <<Dot(p, q)>>) \o Fn("norm", <<Norm(p)>>) \o Fn("rotate", Rotate(q, a))
     \o Fn("euler", << Add(Two(q[W], q[X]), Two(q[Y], q[Z])), Sub(Const(1), Scale(2, Add(Mul(q[X], q[X]), Mul(q[Y], q[Y])))),
                       Sub(Two(q[W], q[Y]), Two(q[X], q[Z])),
                       Add(Two(q[W], q[Z]), Two(q[X], q[Y])), Sub(Const(1), Scale(2, Add(Mul(q[Y], q[Y]), Mul(q[Z], q[Z])))) >>)
Emitted == TLCGet("stats").distinct = Len(Laws) /\ ndJsonSerialize(IOEnv.ROWS, Rows)
=============================================================================
