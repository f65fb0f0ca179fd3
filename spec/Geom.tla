---- MODULE Geom ----
(* Periodic geometry on an exact grid.  A configuration is a sequence of steps; a step
   has a cell (three integer row vectors) and atoms with fractional coordinates that
   are multiples of 1/D (stored as integers, D = 8).  Everything the geometry functions
   return is an integer function of these: supercells (C15), separation vectors, squared
   distances and angles (C16), neighbours (C17), pair counts per bin (C18). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
D == 8
InitSt(hdr) == [steps |-> hdr.steps, sy |-> hdr.sy]
Post(st, ev) == IF ev.op = "set" THEN [steps |-> ev.steps, sy |-> ev.sy] ELSE st
Iff(c, s) == IF c THEN {} ELSE {s}
Range(s) == {s[i] : i \in DOMAIN s}
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VM(v, m) == [k \in 1..3 |-> v[1] * m[1][k] + v[2] * m[2][k] + v[3] * m[3][k]]   \* row vector times matrix
Sub(a, b) == [k \in 1..3 |-> a[k] - b[k]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
NAtoms(st) == Len(st.sy)
Abs(x) == IF x < 0 THEN -x ELSE x

\* --- minimum image: reduce a fractional difference (in 1/D) to [-D/2, D/2) by whole cells
Red(x) == ((x + D \div 2) % D) - D \div 2
Sep(step, i, j, pbc) == LET d == Sub(step.cf[i], step.cf[j]) IN IF pbc THEN [k \in 1..3 |-> Red(d[k])] ELSE d
CSep(step, i, j, pbc) == VM(Sep(step, i, j, pbc), step.cell)          \* times D
D2(step, i, j, pbc) == LET v == CSep(step, i, j, pbc) IN Dot(v, v)      \* times D*D
D2M(step, pbc, n) == [i \in 1..n |-> [j \in 1..n |-> D2(step, i, j, pbc)]]

\* --- supercell
Imgs(n) == IF n > 0 THEN 0..(n - 1) ELSE (n + 1)..0
Prod(d) == Abs(d[1] * d[2] * d[3])
\* image of an atom: fractional coordinate in the new cell, in 1/(D*Prod)
ScFrac(f, m, d) == [k \in 1..3 |-> ((f[k] + D * m[k]) * Prod(d)) \div d[k]]
ScAtoms(st, s, d) == {<<st.sy[i], ScFrac(st.steps[s].cf[i], m, d), VM([k \in 1..3 |-> st.steps[s].cf[i][k] + D * m[k]], st.steps[s].cell), i, m>>
                        : i \in 1..NAtoms(st), m \in Imgs(d[1]) \X Imgs(d[2]) \X Imgs(d[3])}
Key(a) == <<a[1], a[2], a[3]>>
Count(S, k) == Cardinality({a \in S : Key(a) = k})
ScStepOk(st, s, d, out, sy) ==
   /\ out.cell = [r \in 1..3 |-> [k \in 1..3 |-> d[r] * st.steps[s].cell[r][k]]]
   /\ Len(sy) = NAtoms(st) * Prod(d) /\ Len(out.cf) = Len(sy) /\ Len(out.xyz) = Len(sy)
   /\ LET S == ScAtoms(st, s, d)
          O(k) == <<sy[k], out.cf[k], out.xyz[k]>> IN
        /\ \A k \in DOMAIN sy : \E a \in S : Key(a) = O(k)
        /\ \A a \in S : Cardinality({k \in DOMAIN sy : O(k) = Key(a)}) = Count(S, Key(a))

\* documented order: atom by atom, the images of each in the order of the mask (last direction fastest), which rev reverses
ImgSeq(n, rev) == LET m == Abs(n) IN [k \in 1..m |-> LET j == (IF rev THEN m - k ELSE k - 1) IN IF n > 0 THEN j ELSE 0 - j]
ScOrder(st, s, d, rev, out, sy) == LET p == Prod(d)  a == Abs(d[2])  b == Abs(d[3])
      im(k) == <<ImgSeq(d[1], rev)[(k \div (a * b)) + 1], ImgSeq(d[2], rev)[((k \div b) % a) + 1], ImgSeq(d[3], rev)[(k % b) + 1]>> IN
   \A k \in DOMAIN sy : LET i == ((k - 1) \div p) + 1 IN
      sy[k] = st.sy[i] /\ out.cf[k] = ScFrac(st.steps[s].cf[i], im((k - 1) % p), d)

\* --- neighbours
Avail(st, ev) == {j \in 1..NAtoms(st) : j # ev.idx /\ st.sy[j] \notin Range(ev.skip)}
NN2(st, ev, j) == D2(st.steps[ev.step], j, ev.idx, ev.pbc)
Ret(ev) == Range(ev.ret)
NNOk(st, ev) ==
  LET A == Avail(st, ev) IN
  (IF Ret(ev) \subseteq A /\ Cardinality(Ret(ev)) = Len(ev.ret) THEN {} ELSE {"C17:returns_excluded_or_repeated_atom"})
  \cup (IF ev.cut >= 0
     THEN Iff(/\ \A j \in Ret(ev) : j \in 1..NAtoms(st) => NN2(st, ev, j) <= ev.cut * ev.cut
              /\ \A j \in A : NN2(st, ev, j) < ev.cut * ev.cut => j \in Ret(ev), "C17:cutoff_selection")
     ELSE Iff(/\ Len(ev.ret) = IF ev.num < Cardinality(A) THEN ev.num ELSE Cardinality(A)
              /\ \A j \in Ret(ev), k \in A \ Ret(ev) : j \in 1..NAtoms(st) => NN2(st, ev, j) <= NN2(st, ev, k), "C17:closest_selection"))
  \cup Iff(IF ev.sort THEN \A a, b \in DOMAIN ev.ret : a < b /\ {ev.ret[a], ev.ret[b]} \subseteq 1..NAtoms(st) => NN2(st, ev, ev.ret[a]) <= NN2(st, ev, ev.ret[b])
           ELSE \A a, b \in DOMAIN ev.ret : a < b => ev.ret[a] < ev.ret[b], "C17:order")
  \cup Iff(~ev.full \/ (Len(ev.dist) = Len(ev.ret) /\ \A a \in DOMAIN ev.ret : ev.ret[a] \in 1..NAtoms(st) => ev.dist[a] = NN2(st, ev, ev.ret[a])), "C17:distances")

\* --- radial pair distribution: pairs (i in sel1, j in sel2) per bin of width dr/D up to rmax/D
\* ev.steps2 are the steps used; dlo/dhi restrict distances (1/D; dhi < 0: none)
InBin(d2, k, dr) == (k * dr) * (k * dr) <= d2 /\ d2 < ((k + 1) * dr) * ((k + 1) * dr)
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
X2(st, ev, s, i, j) == LET o == ev.other IN
   LET d == Sub(st.steps[s].cf[i], IF o = <<>> THEN st.steps[s].cf[j] ELSE o[s][j])
       r == IF ev.pbc THEN [k \in 1..3 |-> Red(d[k])] ELSE d
       v == VM(r, st.steps[1].cell) IN Dot(v, v)
\* weight of a step: with vmd every step is normalised by the pairs which do not coincide (ev.L: a common multiple)
Weight(st, ev, t) == IF ~ev.vmd THEN 1 ELSE
   ev.L \div (Len(ev.sel1) * Len(ev.sel2) - Cardinality({p \in Range(ev.sel1) \X Range(ev.sel2) : X2(st, ev, ev.steps2[t], p[1], p[2]) = 0}))
PairsIn(st, ev, k, W(_)) ==
  SumF([t \in DOMAIN ev.steps2 |-> W(t) * Cardinality({p \in Range(ev.sel1) \X Range(ev.sel2) :
        LET d2 == X2(st, ev, ev.steps2[t], p[1], p[2]) IN
          d2 < ev.rmax * ev.rmax /\ InBin(d2, k, ev.dr)
          /\ (ev.dlo < 0 \/ d2 >= ev.dlo * ev.dlo) /\ (ev.dhi < 0 \/ d2 < ev.dhi * ev.dhi)})], Len(ev.steps2))
RpdfOk(st, ev) ==
  LET n == Len(ev.g)
      w == [t \in DOMAIN ev.steps2 |-> Weight(st, ev, t)]
      exp == [k \in 1..n |-> IF k = 1 THEN 0 ELSE PairsIn(st, ev, k - 1, LAMBDA t : 1)]
      expg == IF ev.vmd THEN [k \in 1..n |-> IF k = 1 THEN 0 ELSE PairsIn(st, ev, k - 1, LAMBDA t : w[t])] ELSE exp IN
  Iff(n * ev.dr >= ev.rmax, "C18:range_too_short")
  \cup Iff(ev.g = expg, "C18:counts")
  \cup Iff(Len(ev.ni) = n /\ \A k \in 1..n : ev.ni[k] = SumF(exp, k), "C18:number_integral")
  \cup Iff(Len(ev.r) = n /\ \A k \in 1..n : ev.r[k] = (2 * k - 1) * ev.dr, "C18:radii")

Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C15,C16,C17,C18:crash"}
    [] ev.op = "set" -> {}
    [] ev.op = "scell" -> Iff(ev.exc = "", "C15:fails") \cup
        (IF ev.exc # "" THEN {} ELSE
         Iff(Len(ev.out) = Len(st.steps) /\ ev.traj = ev.intraj, "C15:steps") \cup
         Iff(Len(ev.out) # Len(st.steps) \/ \A s \in DOMAIN ev.out : ScStepOk(st, s, ev.dims, ev.out[s], ev.osy), "C15:atoms_and_images")
         \cup Iff(Len(ev.out) # Len(st.steps) \/ \A s \in DOMAIN ev.out : ScStepOk(st, s, ev.dims, ev.out[s], ev.osy) => ScOrder(st, s, ev.dims, ev.rev, ev.out[s], ev.osy), "C15:order_of_atoms"))
    [] ev.op = "dist" -> Iff(ev.exc = "", "C16:fails") \cup (IF ev.exc # "" THEN {} ELSE
        LET s == st.steps[ev.step] n == NAtoms(st) IN
         Iff(ev.d2 = D2M(s, ev.pbc, n), "C16:distances")
         \cup Iff(~ev.full \/ (/\ ev.vec = [i \in 1..n |-> [j \in 1..n |-> CSep(s, i, j, ev.pbc)]]
                               /\ ev.frac = [i \in 1..n |-> [j \in 1..n |-> Sep(s, i, j, ev.pbc)]]), "C16:vectors"))
    [] ev.op = "disttraj" -> Iff(ev.exc = "", "C16:traj_fails") \cup (IF ev.exc # "" THEN {} ELSE
         Iff(Len(ev.d2) = Len(st.steps) /\ \A s \in DOMAIN ev.d2 : ev.d2[s] = D2M(st.steps[s], ev.pbc, NAtoms(st)), "C16:traj_distances"))
    [] ev.op = "angles" -> Iff(ev.exc = "", "C16:angles_fail") \cup (IF ev.exc # "" THEN {} ELSE
         LET s == st.steps[ev.step] n == NAtoms(st) IN
         Iff(\A i, j, k \in 1..n : ev.dots[i][j][k] =
             (IF i = j \/ i = k \/ j = k THEN ev.mask ELSE
              IF D2(s, i, j, ev.pbc) = 0 \/ D2(s, i, k, ev.pbc) = 0 THEN ev.dots[i][j][k]
              ELSE Dot(CSep(s, i, j, ev.pbc), CSep(s, i, k, ev.pbc))), "C16:angles"))
    [] ev.op = "minimg" -> Iff(ev.exc = "" /\ ev.out = [i \in DOMAIN ev.inp |-> [k \in DOMAIN ev.inp[i] |-> Red(ev.inp[i][k])]], "C16:min_image_convention")
         \cup Iff(ev.same = ~ev.copy, "C16:copy_flag")
    [] ev.op = "nn" -> IF ev.exc # "" THEN {"C17:fails"} ELSE NNOk(st, ev)
    [] ev.op = "nnstruct" -> IF ev.exc # "" THEN {"C17:struct_fails"} ELSE
         Iff(\E ret \in {ev.ret} : ev.osy = [k \in DOMAIN ret |-> st.sy[ret[k]]] /\ ev.ocf = [k \in DOMAIN ret |-> st.steps[ev.step].cf[ret[k]]]
             /\ ev.ocell = st.steps[ev.step].cell, "C17:struct")
    [] ev.op = "rpdf" -> IF ev.exc # "" THEN {"C18:fails"} ELSE RpdfOk(st, ev)
    [] ev.op = "gofr" ->                    \* VMD is given the steps and settings asked for, its answer is returned
         LET a == ev.ask g == ev.got n == Len(st.steps) c == st.steps[1].cell
             Ortho == \A i, j \in 1..3 : i = j \/ Dot(c[i], c[j]) = 0
             Few(m, f, l, s) == [k \in 1..((((IF l = 0 - 1 THEN m - 1 ELSE l) - f) \div s) + 1) |-> f + (k - 1) * s + 1]
             Ask == Few(n, a.first, a.last, a.step) Got == Few(Len(ev.frames), g.first, g.last, g.step)
             half == CHOOSE x \in {Dot(c[i], c[i]) : i \in 1..3} : \A i \in 1..3 : x <= Dot(c[i], c[i]) IN
         IF ~Ortho THEN Iff(ev.exc # "", "C18:gofr_other_cell") ELSE IF ev.exc # "" THEN {"C18:gofr_fails"} ELSE
         Iff(Len(Got) = Len(Ask) /\ \A k \in DOMAIN Ask : Got[k] \in DOMAIN ev.frames /\ LET f == ev.frames[Got[k]] s == st.steps[Ask[k]] IN
                f.cell = s.cell /\ f.xyz = [i \in DOMAIN s.cf |-> VM(s.cf[i], s.cell)] /\ ev.sy[Got[k]] = st.sy, "C18:gofr_steps")
         \cup Iff(g.sel = a.sel /\ g.pbc = a.pbc, "C18:gofr_selection") \cup Iff(g.dr = IF a.dr = 0 THEN 1 ELSE a.dr, "C18:gofr_bins")
         \cup Iff(IF a.rmax = 0 - 1 THEN g.rmax * g.rmax = 16 * half ELSE g.rmax = a.rmax, "C18:gofr_radius") \cup Iff(ev.o = ev.ans, "C18:gofr_result")
    [] ev.op = "rmax" -> Iff(ev.exc = "" /\ ev.fine /\ LET v == Det(st.steps[ev.step].cell) IN
          (\A i \in 1..3 : ev.q[i] <= v * v) /\ (\E i \in 1..3 : ev.q[i] = v * v), "C18:auto_radius")
    [] OTHER -> {}
====
