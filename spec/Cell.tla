---- MODULE Cell ----
(* Descriptions of a unit cell (C20): the matrix of integer row vectors, the metric
   (Gram matrix: squared lengths and scalar products, what lattice constants and celldm
   carry), the volume and the reciprocal cell; grids; stress tensors. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(hdr) == 0
Post(st, ev) == st
Iff(c, s) == IF c THEN {} ELSE {s}
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
\* <<a.a, b.b, c.c, b.c, a.c, a.b>> : lengths, then alpha, beta, gamma
Metric(m) == <<Dot(m[1], m[1]), Dot(m[2], m[2]), Dot(m[3], m[3]), Dot(m[2], m[3]), Dot(m[1], m[3]), Dot(m[1], m[2])>>
GramDet(g) == g[1] * (g[2] * g[3] - g[4] * g[4]) - g[6] * (g[6] * g[3] - g[4] * g[5]) + g[5] * (g[6] * g[4] - g[2] * g[5])
RecipX(m) == <<Cross(m[2], m[3]), Cross(m[3], m[1]), Cross(m[1], m[2])>>   \* reciprocal cell * V / 2 pi
\* rounding of sqrt(4b/a)/2 ... : n is a nearest integer of sqrt(b/a), ties either way
Nearest(n, a, b) == (n = 0 \/ (2 * n - 1) * (2 * n - 1) * a <= 4 * b) /\ 4 * b <= (2 * n + 1) * (2 * n + 1) * a
Up(n) == n + (n % 2)
Max(a, b) == IF a < b THEN b ELSE a
GridPt(n0, even, minp) == LET m == Max(n0, minp) IN IF even THEN Up(m) ELSE m
\* b >= n^2 a is bounded by the driver's instances: at most 60 points
GridOk(out, a, b, even, minp) == \A i \in 1..3 : \E n0 \in 0..60 : Nearest(n0, a, b[i]) /\ out[i] = GridPt(n0, even, minp)
Voigt(t) == <<t[1][1], t[2][2], t[3][3], t[2][3], t[1][3], t[1][2]>>
Tensor(v) == << <<v[1], v[6], v[5]>>, <<v[6], v[2], v[4]>>, <<v[5], v[4], v[3]>> >>
Each(f(_), s) == [t \in DOMAIN s |-> f(s[t])]
(* ibrav: conventional cell (metric <<a.a, b.b, c.c, b.c, a.c, a.b>>) and twice the primitive vectors in terms of it *)
I3 == << <<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>> >>
Prim2(n) == CASE n = 2 -> << <<-1, 0, 1>>, <<0, 1, 1>>, <<-1, 1, 0>> >>
              [] n = 3 -> << <<1, 1, 1>>, <<-1, 1, 1>>, <<-1, -1, 1>> >>
              [] n = 7 -> << <<1, -1, 1>>, <<1, 1, 1>>, <<-1, -1, 1>> >>
              [] n = 9 -> << <<1, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 2>> >>
              [] n = 10 -> << <<1, 0, 1>>, <<1, 1, 0>>, <<0, 1, 1>> >>
              [] n = 11 -> << <<1, 1, 1>>, <<-1, 1, 1>>, <<-1, -1, 1>> >>
              [] n = 13 -> << <<1, 0, -1>>, <<0, 2, 0>>, <<1, 0, 1>> >>
              [] OTHER -> I3
\* lattice points per conventional cell
Mult(n) == CASE n \in {2, 10} -> 4 [] n \in {3, 7, 9, 11, 13} -> 2 [] OTHER -> 1
\* the parameters which count: p = <<a, b, c>>, k = <<b.c, a.c, a.b>>
ConvMetric(n, p, k) == LET aa == p[1] * p[1] IN
   CASE n \in {1, 2, 3} -> <<aa, aa, aa, 0, 0, 0>>
     [] n = 4 -> <<aa, aa, p[3] * p[3], 0, 0, -(aa \div 2)>>                 \* a is even
     [] n = 5 -> <<aa, aa, aa, k[1], k[1], k[1]>>
     [] n \in {6, 7} -> <<aa, aa, p[3] * p[3], 0, 0, 0>>
     [] n \in {8, 9, 10, 11} -> <<aa, p[2] * p[2], p[3] * p[3], 0, 0, 0>>
     [] n \in {12, 13} -> <<aa, p[2] * p[2], p[3] * p[3], 0, 0, k[3]>>
     [] n = 14 -> <<aa, p[2] * p[2], p[3] * p[3], k[1], k[2], k[3]>>
\* scalar product of two vectors given in conventional coordinates
MDot(g, u, v) == u[1] * v[1] * g[1] + u[2] * v[2] * g[2] + u[3] * v[3] * g[3] + (u[2] * v[3] + u[3] * v[2]) * g[4]
               + (u[1] * v[3] + u[3] * v[1]) * g[5] + (u[1] * v[2] + u[2] * v[1]) * g[6]
PrimMetric4(n, g) == LET q == Prim2(n) IN <<MDot(g, q[1], q[1]), MDot(g, q[2], q[2]), MDot(g, q[3], q[3]),
                                            MDot(g, q[2], q[3]), MDot(g, q[1], q[3]), MDot(g, q[1], q[2])>>
Ortho == {1, 2, 3, 6, 7, 8, 9, 10, 11}
OrthoCell2(n, p) == LET d == CASE n \in {1, 2, 3} -> <<p[1], p[1], p[1]>> [] n \in {6, 7} -> <<p[1], p[1], p[3]>> [] OTHER -> p IN
                    [i \in 1..3 |-> [j \in 1..3 |-> Prim2(n)[i][j] * d[j]]]
RECURSIVE DotN(_, _, _)
DotN(x, y, n) == IF n = 0 THEN 0 ELSE (x[n] * y[n]) + DotN(x, y, n - 1)
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C20:crash"}
    [] ev.exc # "" -> IF ev.op = "grid" /\ ev.minp = 0 /\ \E i \in 1..3 : Nearest(0, ev.a, ev.b[i]) THEN {} ELSE {"C20:" \o ev.op \o "_fails"}
    [] ev.op = "cell2cc" -> Iff(ev.out = Each(Metric, ev.cells), "C20:lattice_constants")
    [] ev.op = "cc2cell" -> Iff(ev.out = Each(Metric, ev.cells), "C20:cell_from_constants") \cup Iff(ev.orient, "C20:orientation_convention")
    [] ev.op = "celldm" -> Iff(ev.out = Each(Metric, ev.cells), "C20:celldm")
    [] ev.op = "volume" -> Iff(ev.out = Each(LAMBDA m : Abs(Det(m)), ev.cells), "C20:volume")
    [] ev.op = "recip" -> Iff(ev.out = RecipX(ev.cells[1]), "C20:reciprocal")
    [] ev.op = "grid" -> Iff(GridOk(ev.out, ev.a, ev.b, ev.even, ev.minp), "C20:grid_size")
                    \cup Iff(\A i \in 1..3 : ev.out[i] >= Max(1, ev.minp) /\ (ev.even => ev.out[i] % 2 = 0), "C20:grid_constraint")
                    \cup Iff(~ev.full \/ ev.sp = ev.b, "C20:grid_spacing")
    [] ev.op = "spacing" -> Iff(ev.sp = ev.b, "C20:grid_spacing")
    [] ev.op = "ibrav" -> Iff(ev.metric4 = PrimMetric4(ev.n, ConvMetric(ev.n, ev.p, ev.k)), "C20:ibrav_lattice")
                     \cup Iff(ev.n \notin Ortho \/ ev.cell2 = OrthoCell2(ev.n, ev.p), "C20:ibrav_vectors")
                     \cup Iff(ev.right, "C20:ibrav_orientation")
    \* cos |cos| times the squared lengths, for vectors of any dimension, parallel ones included
    [] ev.op = "angle" -> Iff(ev.exc = "" /\ ev.inrange /\ ev.out = (LET d == DotN(ev.x, ev.y, Len(ev.x)) IN d * Abs(d)), "C20:angle")
    [] ev.op = "t2v" -> Iff(ev.out = Each(Voigt, ev.inp), "C20:voigt")
    [] ev.op = "v2t" -> Iff(ev.out = Each(Tensor, ev.inp), "C20:tensor")
    [] OTHER -> {}
====
