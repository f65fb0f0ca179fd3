---- MODULE TransMC ----
(* Over small bases and vectors: the same-point relation has exactly one solution on
   the grid, it inverts and composes; wrapping is idempotent and unique; rotations by
   integer orthogonal frames keep the metric.  Instances are emitted. *)
EXTENDS Trans, Json
CONSTANT EmitMod
VARIABLES o, n, v, k
vars == <<o, n, v, k>>
Bases == << <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>, <<<<2,1,0>>, <<0,1,0>>, <<1,0,1>>>>, <<<<1,1,0>>, <<-1,1,0>>, <<0,1,1>>>>,
            <<<<0,1,0>>, <<1,0,0>>, <<0,0,1>>>>, <<<<2,0,0>>, <<0,2,1>>, <<1,0,1>>>> >>
Vecs == {<<a, b, c>> : a, b, c \in {-9, 0, 5, 8}}
Init == o \in DOMAIN Bases /\ n \in DOMAIN Bases /\ v \in Vecs /\ k = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Det(m) == Dot(m[1], Cross(m[2], m[3]))
Adj(m) == LET c == <<Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2])>> IN [i \in 1..3 |-> [j \in 1..3 |-> c[j][i]]]
Sol(x, a, b) == [i \in 1..3 |-> ((IF Det(b) < 0 THEN -Q ELSE Q) * VecMat(VecMat(x, a), Adj(b))[i]) \div Abs(Det(b))]
Divides == \A i \in 1..3 : (Q * VecMat(VecMat(v, Bases[o]), Adj(Bases[n]))[i]) % Abs(Det(Bases[n])) = 0
Solves == SamePoint(v, Bases[o], Sol(v, Bases[o], Bases[n]), Bases[n])
Unique == \A d \in {<<1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<1,-1,2>>} : LET s == Sol(v, Bases[o], Bases[n]) IN
   ~SamePoint(v, Bases[o], [i \in 1..3 |-> s[i] + d[i]], Bases[n])
Inverse == LET s == Sol(v, Bases[o], Bases[n]) IN VecMat(VecMat(s, Bases[n]), Adj(Bases[o])) = Scale(Q * Det(Bases[o]), v)
WrapLaw == LET w == [i \in 1..3 |-> v[i] % D] IN WrapOk(<<v>>, <<w>>, <<TRUE, TRUE, TRUE>>) /\ WrapOk(<<w>>, <<w>>, <<TRUE, TRUE, TRUE>>)
Frames == << <<<<1,2,2>>, <<2,1,-2>>, <<2,-2,1>>>>, <<<<3,4,0>>, <<-4,3,0>>, <<0,0,5>>>> >>
Gram(m) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(m[i], m[j])]]
AlignLaw == \A f \in DOMAIN Frames : LET q == Dot(Frames[f][1], Frames[f][1]) b == MatVecs(Frames[f], Bases[o]) IN
   Gram(b) = [i \in 1..3 |-> [j \in 1..3 |-> q * Gram(Bases[o])[i][j]]]
\* rotations: proper, orthogonal; with theta = 0 the other two angles add; the inverse is (-psi, -theta, -phi)
Angles == <<<<5,0>>, <<3,4>>, <<-3,4>>, <<0,-5>>, <<-4,-3>>>>
Id(q) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN q ELSE 0]]
Neg(a) == <<a[1], 0 - a[2]>>
EulerLaw == LET a == Angles[o] b == Angles[n] IN \A i \in DOMAIN Angles : LET c == Angles[i] e == Euler(a, b, c) IN
   Gram(e) = Id(15625) /\ Cross(e[1], e[2]) = Scale(125, e[3]) /\ MatMat(e, Euler(Neg(c), Neg(b), Neg(a))) = Id(15625)
   /\ MatMat(Euler(<<5, 0>>, <<5, 0>>, c), Euler(a, <<5, 0>>, <<5, 0>>)) = [r \in 1..3 |-> Scale(125, Euler(a, <<5, 0>>, c)[r])]
Emit == ((o * 5 + n) * 64 + v[1] * 3 + v[2] * 7 + v[3] * 11) % EmitMod = 0 =>
   PrintT("SC " \o ToJson([old |-> Bases[o], new |-> Bases[n], v |-> v]))
====
