---- MODULE Pw ----
(* PWscf output files and what the parsers make of them (C23).
   A file is the run it documents: header quantities and a sequence of blocks
     [k |-> "scf", e, f (sequence of force blocks, each natoms x 3), s, it, conv]   one SCF calculation
     [k |-> "pos", cell, calat, x, ekin, temp, econst]                              new positions of a step
   Absent quantities are <<>>.  Lengths are printed with 2 decimals (units 1/100), alat with 1
   (units 1/10), so products are units of 1/1000; energies, forces 1/1000, stress 1/100,
   kinetic energy, temperature, time step 1/100, all scaled to 1/1000 when observed.
   An array is [s |-> shape, d |-> flat data]; None is [s |-> <<-1>>, d |-> <<>>].
   Lengths are observed in three units at once: b (as is), a (divided by Angstrom/Bohr). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
None == [s |-> <<-1>>, d |-> <<>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Mul(a, k) == [i \in DOMAIN a |-> a[i] * k]
InitSt(hdr) == [f |-> <<>>, aligned |-> TRUE]
Sel(f, k) == SelectSeq(f.blocks, LAMBDA b : b.k = k)
Idx(f, k) == SelectSeq([i \in 1..Len(f.blocks) |-> i], LAMBDA i : f.blocks[i].k = k)
Steps(f) == Sel(f, "pos")
N(f) == Len(Steps(f))
Scfs(f) == Sel(f, "scf")
\* the SCF calculation done at the positions of step t: the one following them
ScfOf(f, t) == LET p == Idx(f, "pos")[t] q == SelectSeq(Idx(f, "scf"), LAMBDA i : i > p) IN IF q = <<>> THEN <<>> ELSE <<f.blocks[Head(q)]>>
\* every step has exactly its own SCF calculation, and one calculation precedes the first step
Aligned(f) == N(f) > 0 /\ Len(Scfs(f)) = N(f) + 1 /\ f.blocks[1].k = "scf" /\ \A i \in 1..Len(f.blocks) : f.blocks[i].k = IF i % 2 = 1 THEN "scf" ELSE "pos"
Flat3(m) == Cat(m)
Arr2(m) == [s |-> <<Len(m), 3>>, d |-> Flat3(m)]
Arr3(ms) == IF ms = <<>> THEN None ELSE [s |-> <<Len(ms), Len(ms[1]), 3>>, d |-> Cat([i \in DOMAIN ms |-> Flat3(ms[i])])]
Arr1(v) == IF v = <<>> THEN None ELSE [s |-> <<Len(v)>>, d |-> v]
Sca(v) == [s |-> <<>>, d |-> <<v>>]
Scale(a, k) == [a EXCEPT !.d = Mul(@, k)]
\* observed length arrays: o.b in Bohr (or as printed), o.a in Angstrom
LenIs(o, a, unit) == IF unit = "angstrom" THEN o.a = a ELSE o.b = a
Alat(f, use) == IF use THEN f.alat ELSE 10                      \* in 1/10
HasF(f) == Scfs(f) # <<>> /\ Scfs(f)[1].f # <<>>
HasS(f) == Scfs(f) # <<>> /\ Scfs(f)[1].s # <<>>
Ok1(b) == b.conv
\* what PwSCFOutputFile returns
ScfGet(f, use, a, o) ==
  LET c == SelectSeq(Scfs(f), Ok1) IN
  CASE a = "coords" -> o.b = Scale(Arr2(f.pos0), Alat(f, use))
    [] a = "cell" -> o.b = Scale(Arr2(f.cell0), Alat(f, use))
    [] a = "symbols" -> o = f.sym
    [] a = "natoms" -> o = Sca(1000 * Len(f.sym))
    [] a = "nkpoints" -> o = Sca(1000 * f.nk)
    [] a = "etot" -> o = IF c = <<>> THEN None ELSE Sca(c[1].e)
    [] a = "nstep_scf" -> o = IF c = <<>> THEN None ELSE Sca(1000 * c[1].it)
    [] a = "scf_converged" -> o = Sca(IF c = <<>> THEN 0 ELSE 1000)
    [] a = "forces" -> o = IF HasF(f) THEN Arr2(Scfs(f)[1].f[1]) ELSE None
    [] a = "stress" -> o = IF HasS(f) THEN Scale(Arr2(Scfs(f)[1].s), 10) ELSE None
\* what PwMDOutputFile / PwVCMDOutputFile return
Aset(f) == [t \in 1..N(f) |-> ScfOf(f, t)[1]]
PerPos(f, g(_)) == [t \in 1..N(f) |-> g(Steps(f)[t])]
MdLen(f, use, o, arrs, unit, cal) ==
  CASE unit = "alat" -> o.b = [arrs EXCEPT !.d = [i \in DOMAIN @ |-> @[i] * (IF use THEN cal[((i - 1) \div (Len(@) \div N(f))) + 1] ELSE 10)]]
    [] OTHER -> LenIs(o, Scale(arrs, 10), unit)
MdGet(f, use, vc, a, o) ==
  LET P == Steps(f) n == N(f) al == [t \in 1..n |-> f.alat] IN
  CASE a = "coords" -> IF n = 0 \/ f.punit = "crystal" THEN o.b = None ELSE MdLen(f, use, o, Arr3([t \in 1..n |-> P[t].x]), f.punit, al)
    [] a = "coords_frac" -> o = IF n > 0 /\ f.punit = "crystal" THEN Scale(Arr3([t \in 1..n |-> P[t].x]), 10) ELSE None
    [] a = "cell" -> IF n = 0 \/ P[1].cell = <<>> THEN o.b = Scale(Arr2(f.cell0), Alat(f, use))
                     ELSE MdLen(f, use, o, Arr3([t \in 1..n |-> P[t].cell]), IF f.cunit \in {"", "alat=", "alat"} THEN "alat" ELSE f.cunit,
                                IF f.cunit = "alat=" THEN [t \in 1..n |-> P[t].calat] ELSE al)
    [] a = "symbols" -> o = f.sym
    [] a = "natoms" -> o = Sca(1000 * Len(f.sym))
    [] a = "nkpoints" -> o = Sca(1000 * f.nk)
    [] a = "timestep" -> o = IF f.dt = 0 THEN None ELSE Sca(10 * f.dt)
    [] a = "ekin" -> o = IF n > 0 /\ P[1].ekin # <<>> THEN Arr1([t \in 1..n |-> 10 * P[t].ekin[1]]) ELSE None
    [] a = "temperature" -> o = IF n > 0 /\ P[1].temp # <<>> THEN Arr1([t \in 1..n |-> 10 * P[t].temp[1]]) ELSE None
    [] a = "econst" -> o = IF n > 0 /\ P[1].econst # <<>> THEN Arr1([t \in 1..n |-> 10 * P[t].econst[1]]) ELSE None
    [] a = "etot" -> o = Arr1([t \in 1..n |-> Aset(f)[t].e])
    [] a = "forces" -> o = IF HasF(f) THEN Arr3([t \in 1..n |-> Aset(f)[t].f[1]]) ELSE None
    [] a = "stress" -> o = IF HasS(f) THEN Scale(Arr3([t \in 1..n |-> Aset(f)[t].s]), 10) ELSE None
    [] a = "nstep_scf" -> o = Arr1([i \in DOMAIN Scfs(f) |-> 1000 * Scfs(f)[i].it])
Row(o, t) == LET per == Len(o.d) \div o.s[1] IN SubSeq(o.d, (t - 1) * per + 1, t * per)
Energy == {"etot", "forces", "stress"}
Post(st, ev) == IF ev.op = "file" THEN [f |-> ev.f] ELSE st
Check(f, ev, a, o) ==
  IF ev.cls = "scf" THEN Iff(ScfGet(f, ev.use, a, o), "C23:scf_" \o a)
  ELSE IF a \in Energy /\ ~Aligned(f)
       \* interrupted or repeated last positions: the quantities of step t are those of the SCF following it (if any)
       THEN LET V(b) == CASE a = "etot" -> <<b.e>> [] a = "forces" -> Flat3(b.f[1]) [] OTHER -> Mul(Flat3(b.s), 10)
                Right == \A t \in 1..N(f) : ScfOf(f, t) # <<>> /\ t <= o.s[1] => Row(o, t) = V(ScfOf(f, t)[1])
                \* the listed finding: as many calculations as positions, step t gets the t-th, i.e. the one before it
                Shift == Len(Scfs(f)) = N(f) /\ o.s[1] = N(f) /\ \A t \in 1..N(f) : Row(o, t) = V(Scfs(f)[t])
            IN IF o = None \/ o.d = <<>> THEN {} ELSE IF Right THEN {} ELSE IF Shift THEN {"C23:alignment"} ELSE {"C23:misattributed"}
       ELSE Iff(MdGet(f, ev.use, ev.cls = "vcmd", a, o), "C23:md_" \o a)
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C23:crash"}
    [] ev.op = "get" -> IF ev.exc # "" THEN {"C23:fails_" \o ev.cls \o "_" \o ev.a} ELSE Check(st.f, ev, ev.a, ev.o)
    [] ev.op = "all" ->       \* parse() or get_struct()/get_traj(): the same values under the names of the attributes
         IF ev.exc # "" THEN {"C23:fails_" \o ev.cls \o "_" \o ev.via}
         ELSE UNION {Check(st.f, ev, ev.as[i].a, ev.as[i].o) : i \in DOMAIN ev.as}
    [] OTHER -> {}
====
