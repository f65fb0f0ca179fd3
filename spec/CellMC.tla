---- MODULE CellMC ----
EXTENDS Cell, Json
CONSTANTS EmitMod, R, Wide
RR == IF Wide THEN {-2, 0, 1, 3} ELSE {-2, 0, 3}
VARIABLES a, b, c
vars == <<a, b, c>>
V3 == {<<x, y, z>> : x, y, z \in R}
A3 == {<<3, 0, 0>>, <<2, 1, 0>>, <<0, -2, 1>>, <<1, 1, 4>>}
Init == a \in A3 /\ b \in V3 /\ c \in V3 /\ Det(<<a, b, c>>) # 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
m == <<a, b, c>>
VolLaw == GramDet(Metric(m)) = Det(m) * Det(m)
RecipLaw == \A i, j \in 1..3 : Dot(RecipX(m)[i], m[j]) = IF i = j THEN Det(m) ELSE 0
\* the reciprocal of the reciprocal is the cell again (times V)
Recip2 == \A i, j \in 1..3 : RecipX(RecipX(m))[i][j] = Det(m) * m[i][j]
GridLaw == LET B == Dot(a, a) * 64 IN \A p \in {3, 8, 20} : \E n \in 0..60 : Nearest(n, p * p, B)
GridUnique == LET B == Dot(a, a) * 64 IN \A p \in {3, 20} : \A n \in 0..30 : \A k \in 0..30 : (Nearest(n, p * p, B) /\ Nearest(k, p * p, B)) => Abs(n - k) <= 1
EvenLaw == \A n \in 0..10, mp \in 0..4, e \in BOOLEAN : LET g == GridPt(n, e, mp) IN g >= n /\ g >= mp /\ (e => g % 2 = 0) /\ g <= Max(n, mp) + 1
VoigtLaw == \A v \in {<<1, 2, 3, 4, 5, 6>>, <<-1, 0, 7, 2, 2, 9>>} : Voigt(Tensor(v)) = v
\* a centred lattice has Mult points per conventional cell; every ibrav gives a cell of volume V / Mult
PP == <<2, 3, 5>>
IbravLaw == \A n \in 1..14 : LET g == ConvMetric(n, PP, <<1, 2, 1>>) q == PrimMetric4(n, g) d == Det(Prim2(n)) IN
   /\ Abs(d) * Mult(n) = 8
   /\ GramDet(q) = d * d * GramDet(g)
   /\ (n \in Ortho => GramDet(q) = Det(OrthoCell2(n, PP)) * Det(OrthoCell2(n, PP)) /\ Metric(OrthoCell2(n, PP)) = q)
\* centrings which describe the same lattice: fcc as face-centred orthorhombic, bcc as body-centred tetragonal / orthorhombic
IbravSame == LET g == ConvMetric(1, PP, <<0, 0, 0>>) IN
   /\ GramDet(PrimMetric4(2, g)) = GramDet(PrimMetric4(10, g)) /\ PrimMetric4(3, g) = PrimMetric4(11, g)
   /\ PrimMetric4(2, g) = <<8, 8, 8, 4, 4, 4>> /\ PrimMetric4(10, g) = <<8, 8, 8, 4, 4, 4>>
Emit == (a[1] * 3 + b[1] * 5 + b[2] * 7 + c[3] * 11 + c[2] * 13 + b[3]) % EmitMod = 0 => PrintT("SC " \o ToJson([cell |-> m]))
====
