---- MODULE Trans ----
(* Coordinate transformations (C19) on exact grids.  Coordinates are integers over D = 8;
   bases are integer matrices (rows are basis vectors). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
D == 8
Q == 4                      \* new bases have a determinant dividing Q
InitSt(hdr) == [steps |-> hdr.steps, sy |-> hdr.sy]
Post(st, ev) == IF ev.op = "inplace" THEN [st EXCEPT !.steps = ev.after] ELSE st
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
VecMat(v, m) == [k \in DOMAIN v |-> SumTo([i \in DOMAIN v |-> v[i] * m[i][k]], Len(v))]
Dot(a, b) == SumTo([i \in DOMAIN a |-> a[i] * b[i]], Len(a))
Scale(c, v) == [k \in DOMAIN v |-> c * v[k]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
MatVecs(m, vs) == [r \in DOMAIN vs |-> [k \in 1..3 |-> Dot(vs[r], m[k])]]
\* same point: out (in 1/(D*Q)) times new basis = in (in 1/D) times old basis
SamePoint(c, old, out, new) == Len(out) = Len(c) /\ VecMat(out, new) = Scale(Q, VecMat(c, old))
Congr(a, b) == (a - b) % D = 0
WrapOk(inp, out, mask) == Len(out) = Len(inp) /\ \A i \in DOMAIN inp : \A k \in 1..3 :
    IF mask[k] THEN out[i][k] \in 0..(D - 1) /\ Congr(out[i][k], inp[i][k]) ELSE out[i][k] = inp[i][k]
ObjOk(st, o) == /\ o.sy = st.sy /\ Len(o.steps) = Len(st.steps)
\* cartesian and fractional coordinates describe the same points
Consistent(s, f) == \A i \in DOMAIN s.cf : s.xyz[i] = Scale(f, VecMat(s.cf[i], s.cell))
\* Euler's rotations (x convention), angles as cosine and sine in fifths
Rz(a) == <<<<a[1], a[2], 0>>, <<0 - a[2], a[1], 0>>, <<0, 0, 5>>>>
Rx(a) == <<<<5, 0, 0>>, <<0, a[1], a[2]>>, <<0, 0 - a[2], a[1]>>>>
MatMat(a, b) == [i \in 1..3 |-> VecMat(a[i], b)]
Euler(phi, theta, psi) == MatMat(Rz(psi), MatMat(Rx(theta), Rz(phi)))        \* in 1/125
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C19:crash"}
    [] ev.op = "trans" -> Iff(ev.exc = "", "C19:trans_fails") \cup (IF ev.exc # "" THEN {} ELSE
          Iff(Len(ev.out) = Len(ev.inp) /\ \A t \in DOMAIN ev.inp : \A i \in DOMAIN ev.inp[t] :
                SamePoint(ev.inp[t][i], ev.old[t], ev.out[t][i], ev.new[t]), "C19:different_point")
          \cup Iff(ev.shape = ev.inshape, "C19:shape")
          \cup Iff(ev.back = ev.inp, "C19:back_transformation")
          \cup Iff(ev.changed = (~ev.copy), "C19:copy_flag"))
    [] ev.op = "wrapc" -> Iff(ev.exc = "", "C19:wrap_fails") \cup (IF ev.exc # "" THEN {} ELSE
          Iff(WrapOk(ev.inp, ev.out, ev.mask), "C19:wrap") \cup Iff(ev.shape = ev.inshape, "C19:shape"))
    [] ev.op = "wraptiny" -> Iff(ev.exc = "" /\ ev.ok, "C19:wrap_not_below_one")
    [] ev.op \in {"wrap", "center", "align"} -> Iff(ev.exc = "", "C19:" \o ev.op \o "_fails") \cup (IF ev.exc # "" THEN {} ELSE
          Iff(ObjOk(st, ev.out) /\ ev.kept, "C19:" \o ev.op \o "_steps_or_symbols") \cup
          (IF ~ObjOk(st, ev.out) THEN {} ELSE
           UNION {LET a == st.steps[t] b == ev.out.steps[t] IN
             (CASE ev.op = "wrap" -> Iff(b.cell = a.cell /\ WrapOk(a.cf, b.cf, ev.mask) /\ Consistent(b, 1), "C19:wrap")
                [] ev.op = "center" -> Iff(/\ b.cell = a.cell /\ Consistent(b, 1)
                                           /\ \A i \in DOMAIN a.cf : \A k \in 1..3 : b.cf[i][k] = a.cf[i][k] - a.cf[ev.idx][k] + D \div 2, "C19:center")
                [] OTHER -> Iff(b.cf = a.cf, "C19:align_frac")
                    \cup Iff(b.cell = [r \in 1..3 |-> <<Dot(a.cell[r], ev.x), Dot(a.cell[r], ev.y), Dot(a.cell[r], ev.z)>>], "C19:align_cell")
                    \cup Iff(\A i \in DOMAIN a.cf : b.xyz[i] = VecMat(a.cf[i], b.cell), "C19:align_coords")) : t \in DOMAIN st.steps}))
    [] ev.op = "inplace" -> Iff(ev.exc = "", "C19:inplace_fails")
    [] ev.op = "euler" -> IF ev.range THEN Iff(ev.exc = "", "C19:euler_fails") \cup (IF ev.exc # "" THEN {} ELSE Iff(ev.out = Euler(ev.phi, ev.theta, ev.psi), "C19:euler_matrix"))
                          ELSE Iff(ev.exc # "", "C19:euler_range")
    [] OTHER -> {}
====
