---- MODULE Rand ----
(* Random structures (C36).  State: the configuration of the generator.  Every structure it returns has to
   satisfy the constraints of that configuration, whatever the random stream; otherwise it raises its error.
   Lengths in 1/1000 Ang, angles in 1/100 degree, scales in 1/1000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rad == [H |-> 310, C |-> 760, N |-> 710, O |-> 660, Al |-> 1210, Si |-> 1110, Cs |-> 2440, Fe |-> 1320]
InitSt(hdr) == hdr
Post(st, ev) == st
Abs(x) == IF x < 0 THEN 0 - x ELSE x

\* ---------------------------------------------------------------- derived bounds
\* mean volume V = 4/3 pi vol_scale sum r^3, in 1e-4 Ang^3
Cube(r) == (r \div 10) * (r \div 10) * (r \div 10)             \* 1e-6 Ang^3
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
RECURSIVE SumCube(_, _)
SumCube(sy, i) == IF i = 0 THEN 0 ELSE Cube(Rad[sy[i]]) + SumCube(sy, i - 1)
Sphere(s) == 4 * s + (s \div 100) * 19 - s \div 826            \* 4.18879 s
VolMean(st) == MulDiv(Sphere(SumCube(st.sym, Len(st.sym))), st.vs, 100000)
VLo(st) == LET v == VolMean(st) IN MulDiv(v, st.vr[1], 1000) - 3 - v \div 800
VHi(st) == LET v == VolMean(st) IN MulDiv(v, st.vr[2], 1000) + 3 + v \div 800
\* side lengths: l in [s1, s2] * V^(1/3)   <=>   (l/s1)^3 >= V >= (l/s2)^3; lengths in 1/200 or 1/100 Ang, rounded outwards
Cb(x) == x * x * x
Fit(x, v) == IF v < 1000000 THEN Cb(x \div 5) \div 800 ELSE Cb(x \div 10) \div 100
LenOK(st, l) == LET v == VolMean(st)
                    a == (l * 1000) \div st.lr[1]        \* 1/1000 Ang
                    b == (l * 1000) \div st.lr[2]
                IN (a > (IF v < 1000000 THEN 6300 ELSE 12000) \/ Fit(a + 11, v) >= v - v \div 500 - 2) /\ (b <= 12500 /\ (v < 1000000 => b <= 6300)) /\ Fit(b - 11, v) <= v + v \div 500 + 2
AngOK(st, a) == st.ar[1] - 1 <= a /\ a <= st.ar[2] + 1
Dmin(st, i, j) == ((Rad[st.sym[i]] + Rad[st.sym[j]]) * st.cs) \div 1000

\* ---------------------------------------------------------------- distances, with periodic images
Images == {<<a, b, c>> : a \in -2..2, b \in -2..2, c \in -2..2}
Shift(x, n, cell) == [k \in 1..3 |-> x[k] + n[1] * cell[1][k] + n[2] * cell[2][k] + n[3] * cell[3][k]]
Closer(v, d) == (\A k \in 1..3 : Abs(v[k]) < d) /\ v[1] * v[1] + v[2] * v[2] + v[3] * v[3] < d * d
TooClose(st, ev, i, j) == LET d == Dmin(st, i, j) - 6 - Dmin(st, i, j) \div 1000
                              x == [k \in 1..3 |-> ev.x[i][k] - ev.x[j][k]]
                          IN \E n \in Images : Closer(Shift(x, n, ev.cell), d)

Impossible(st) == st.hopeless
StructBad(st, ev) ==
  (IF ev.sym = st.sym THEN {} ELSE {"C36:symbols"})
  \cup (IF Len(ev.f) = Len(st.sym) /\ \A i \in DOMAIN ev.f : \A k \in 1..3 : 0 <= ev.f[i][k] /\ ev.f[i][k] < 1000000 THEN {} ELSE {"C36:coords_not_in_0_1"})
  \cup (IF \A k \in 1..3 : LenOK(st, ev.cc[k]) THEN {} ELSE {"C36:length_out_of_range"})
  \cup (IF \A k \in 4..6 : AngOK(st, ev.cc[k]) THEN {} ELSE {"C36:angle_out_of_range"})
  \cup (IF VLo(st) <= ev.vol /\ ev.vol <= VHi(st) THEN {} ELSE {"C36:volume_out_of_range"})
  \cup (IF Len(ev.x) = Len(st.sym) /\ \E i \in DOMAIN ev.x : \E j \in 1..i - 1 : TooClose(st, ev, i, j) THEN {"C36:atoms_too_close"} ELSE {})
Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C36:crash"}
  ELSE IF ev.exc = "RandomStructureFail" THEN (IF ev.mayfail THEN {} ELSE {"C36:fails_although_told_not_to"})
  ELSE IF ev.exc # "" THEN {"C36:raises_" \o ev.exc}
  ELSE IF Impossible(st) /\ ev.op = "struct" THEN {"C36:returned_although_impossible"}
  ELSE IF ev.op = "cc" THEN
       (IF \A k \in 1..3 : LenOK(st, ev.cc[k]) THEN {} ELSE {"C36:length_out_of_range"})
       \cup (IF \A k \in 4..6 : AngOK(st, ev.cc[k]) THEN {} ELSE {"C36:angle_out_of_range"})
       \cup (IF VLo(st) <= ev.vol /\ ev.vol <= VHi(st) THEN {} ELSE {"C36:volume_out_of_range"})
  ELSE StructBad(st, ev)
====
