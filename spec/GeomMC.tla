---- MODULE GeomMC ----
(* All configurations of N atoms on a set of grid points (inside, outside and on the
   border of the cell) in several cells (orthogonal, skewed, left-handed): the
   definitions of Geom satisfy the laws the properties promise; configurations are
   emitted for replay. *)
EXTENDS Geom, Json
CONSTANTS EmitMod, N
VARIABLES cell, cf, sy, k
vars == <<cell, cf, sy, k>>
Cells == << <<<<4,0,0>>, <<0,6,0>>, <<0,0,5>>>>, <<<<4,0,0>>, <<1,5,0>>, <<-2,1,6>>>>, <<<<5,1,0>>, <<0,4,2>>, <<1,0,6>>>>, <<<<0,4,0>>, <<6,0,0>>, <<0,0,4>>>> >>
Pts == << <<0,0,0>>, <<4,0,2>>, <<1,3,7>>, <<-5,9,4>>, <<12,-12,20>>, <<8,8,0>> >>
Init == cell \in DOMAIN Cells /\ cf \in [1..N -> DOMAIN Pts] /\ sy \in [1..N -> {"A", "B"}] /\ k = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
st == [steps |-> <<[cell |-> Cells[cell], cf |-> [i \in 1..N |-> Pts[cf[i]]]]>>, sy |-> sy]
s1 == st.steps[1]
Dims == { <<1,1,1>>, <<2,1,1>>, <<1,2,3>>, <<-2,1,2>> }
AllA == \A i \in 1..N : sy[i] = "A"      \* species do not matter for the laws of distances
RedLaw == \A x \in -40..40 : Red(x) \in (-(D \div 2))..(D \div 2 - 1) /\ (x - Red(x)) % D = 0
SepLaw == AllA => \A i, j \in 1..N, p \in BOOLEAN : D2(s1, i, j, p) = D2(s1, j, i, p) \/ \E c \in 1..3 : Sep(s1, i, j, TRUE)[c] = -(D \div 2)
\* in an orthogonal cell the reduced vector is the shortest image
MinLaw == AllA /\ cell \in {1, 4} => \A i, j \in 1..N : \A m \in (-1..1) \X (-1..1) \X (-1..1) :
   LET v == VM([c \in 1..3 |-> Sep(s1, i, j, TRUE)[c] + D * m[c]], s1.cell) IN D2(s1, i, j, TRUE) <= Dot(v, v)
ScLaw == AllA => \A d \in Dims : LET S == ScAtoms(st, 1, d) newc == [r \in 1..3 |-> [c \in 1..3 |-> d[r] * s1.cell[r][c]]] IN
   /\ Cardinality(S) = N * Prod(d)
   /\ \A a \in S : VM(a[2], newc) = [c \in 1..3 |-> Prod(d) * a[3][c]]
ScDist == \A d \in {<<2,1,1>>} : \A a, b \in ScAtoms(st, 1, d) : (a[4] = b[4] /\ a[5] # b[5]) => a[3] # b[3]
\* a selection satisfying the neighbour law exists and, without ties, is unique
NNEv(ret) == [idx |-> 1, step |-> 1, pbc |-> TRUE, skip |-> <<"B">>, cut |-> -1, num |-> 1, sort |-> TRUE, full |-> FALSE, ret |-> ret]
NNLaw == LET A == Avail(st, NNEv(<<>>)) good == {r \in {<<>>} \cup {<<j>> : j \in 1..N} : NNOk(st, NNEv(r)) = {}} IN
   good # {} /\ ((\A a, b \in A : a # b => D2(s1, a, 1, TRUE) # D2(s1, b, 1, TRUE)) => Cardinality(good) = 1)
Code == cell * 7 + SumF([i \in 1..N |-> cf[i] * (i + 1) * 5 + (IF sy[i] = "A" THEN i ELSE 0)], N)
Emit == (Code * 31) % EmitMod = 0 => PrintT("SC " \o ToJson([cell |-> s1.cell, cf |-> s1.cf, sy |-> sy]))
====
