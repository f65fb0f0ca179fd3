---- MODULE Crys ----
(* Structures and trajectories (C09-C12): a store of objects.  An object is the
   integer image of a Structure/Trajectory (see drivers/_crysobs.py for scales):
   kind "S"/"T", P the names of the attributes present, A the stepwise values
   (attribute -> sequence over steps of flat integer sequences), N,L,S,D,M the
   step-independent ones, dt the time step.
   Derived from A: G = cell metric (cell.cell^T), cdot = coords.cell^T. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

StepAttrs == {"coords", "coords_frac", "cell", "cryst_const", "forces", "stress", "velocity", "etot", "ekin",
              "pressure", "temperature", "time", "volume"}
TrajOnly == {"nstep", "timestep", "time", "ekin", "velocity", "temperature"}
SymAttrs == {"symbols", "symbols_unique", "order", "typat", "znucl_unique", "znucl", "ntypat", "nspecies", "mass", "mass_unique", "natoms"}
\* what is compared for an attribute
Views(a) == IF a = "cryst_const" THEN {"cryst_const", "ccraw"} ELSE IF a = "volume" THEN {"volume", "volraw"} ELSE {a}

(* ---- the periodic table, as far as needed ---- *)
SymOrder == <<"Al", "C", "Ca", "Cl", "Fe", "H", "N", "O", "Si">>
Z    == [Al |-> 13, C |-> 6, Ca |-> 20, Cl |-> 17, Fe |-> 26, H |-> 1, N |-> 7, O |-> 8, Si |-> 14]
Mass == [Al |-> 26982, C |-> 12011, Ca |-> 40078, Cl |-> 35453, Fe |-> 55845, H |-> 1008, N |-> 14007, O |-> 15999, Si |-> 28086]
Unique(syms) == SelectSeq(SymOrder, LAMBDA s : s \in Range(syms))
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* ---- Python slices ---- *)
ClampLo(n, i, neg) == LET j == IF i < 0 THEN i + n ELSE i IN
                      IF neg THEN Min2(Max2(j, -1), n - 1) ELSE Min2(Max2(j, 0), n)
RECURSIVE Walk(_, _, _)
Walk(i, e, s) == IF (s > 0 /\ i >= e) \/ (s < 0 /\ i <= e) THEN <<>> ELSE <<i>> \o Walk(i + s, e, s)
\* a, b, c: <<>> (omitted) or <<value>>; result: 0-based indices
SliceIdx(n, a, b, c) ==
  LET s == IF c = <<>> THEN 1 ELSE c[1]
      neg == s < 0
      lo == IF a = <<>> THEN IF neg THEN n - 1 ELSE 0 ELSE ClampLo(n, a[1], neg)
      hi == IF b = <<>> THEN IF neg THEN -1 ELSE n ELSE ClampLo(n, b[1], neg)
  IN Walk(lo, hi, s)
Take(seq, idx) == [k \in DOMAIN idx |-> seq[idx[k] + 1]]

(* ---- attributes derivable from a set P ---- *)
Grow(kind, n, P) == P
  \cup (IF "symbols" \in P THEN SymAttrs ELSE {})
  \cup (IF "cell" \in P \/ "cryst_const" \in P THEN {"cell", "cryst_const", "volume"} ELSE {})
  \cup (IF "coords" \in P \/ "coords_frac" \in P THEN {"natoms"} ELSE {})
  \cup (IF {"coords", "coords_frac"} \cap P # {} /\ "cell" \in P THEN {"coords", "coords_frac"} ELSE {})
  \cup (IF "stress" \in P THEN {"pressure"} ELSE {})
  \cup (IF kind # "T" THEN {} ELSE
          (IF {"coords", "coords_frac"} \cap P # {} THEN {"nstep"} ELSE {})
     \cup (IF {"timestep", "nstep"} \subseteq P THEN {"time"} ELSE {})
     \cup (IF {"coords", "timestep"} \subseteq P /\ n >= 3 THEN {"velocity"} ELSE {})
     \cup (IF {"mass", "velocity"} \subseteq P THEN {"ekin"} ELSE {})
     \cup (IF {"ekin", "natoms"} \subseteq P THEN {"temperature"} ELSE {}))
RECURSIVE Closure(_, _, _)
Closure(kind, n, P) == LET Q == Grow(kind, n, P) IN IF Q = P THEN P ELSE Closure(kind, n, Q)

(* ---- objects ---- *)
NSteps(o) == IF "coords" \in Range(o.P) THEN Len(o.A.coords) ELSE IF "coords_frac" \in Range(o.P) THEN Len(o.A.coords_frac)
             ELSE IF o.kind = "S" THEN 1 ELSE 0
Static == [kind |-> TRUE]
SameOther(o, q, skip) ==
  LET c == Range(o.P) \cap Range(q.P) IN
  /\ \A a \in {"natoms", "ntypat"} \ skip : a \in c => o.N[a] = q.N[a]
  /\ ("nstep" \in c /\ "nstep" \notin skip => o.N.nstep = q.N.nstep)
  /\ \A a \in {"typat", "znucl", "znucl_unique"} \ skip : a \in c => o.L[a] = q.L[a]
  /\ \A a \in {"symbols", "symbols_unique"} \ skip : a \in c => o.S[a] = q.S[a]
  /\ \A a \in {"order", "nspecies"} \ skip : a \in c => o.D[a] = q.D[a]
  /\ \A a \in {"mass", "mass_unique"} \ skip : a \in c => o.M[a] = q.M[a]
  /\ ("timestep" \in c /\ "timestep" \notin skip => o.dt = q.dt)
\* stepwise value sv of attribute view v in q is what `sel` gives
SameStep(o, q, a) == o.tok[a] = q.tok[a] /\ \A v \in Views(a) : o.A[v] = q.A[v]

(* ---- raw data times units (C09) ---- *)
UOf(a) == CASE a \in {"coords", "cell"} -> "length" [] a \in {"etot", "ekin"} -> "energy" [] a = "stress" -> "stress"
            [] a = "forces" -> "forces" [] a = "velocity" -> "velocity" [] a = "temperature" -> "temperature"
            [] OTHER -> "none"
Fac(u, k) == IF k \in DOMAIN u THEN u[k] ELSE <<1, 1>>
MulD(x, f) == (x * f[1]) \div f[2]
Conv(a, s, u) == IF a = "cryst_const" THEN LET f == Fac(u, "length") IN [i \in DOMAIN s |-> MulD(MulD(s[i], f), f)]
                 ELSE [i \in DOMAIN s |-> MulD(s[i], Fac(u, UOf(a)))]
GivenN(ev) == LET L == {a \in {"coords", "coords_frac"} : a \in DOMAIN ev.given} IN
              IF L = {} THEN (IF ev.kind = "S" THEN 1 ELSE ev.n) ELSE ev.n
GivenVal(ev, a) == LET raw == ev.given[a].steps
                       ext == IF ev.given[a].static THEN [k \in 1..ev.n |-> raw[1]] ELSE raw
                   IN [k \in DOMAIN ext |-> Conv(a, ext[k], ev.units)]
GivenSet(ev) == DOMAIN ev.given \cup (IF ev.symbols # <<>> THEN {"symbols"} ELSE {}) \cup (IF ev.dt # 0 THEN {"timestep"} ELSE {})

(* ---- consistency of derived attributes of o; A0: what was there before ---- *)
M3(s, i, j) == s[3 * (i - 1) + j]
\* both coordinate sets projected on the cell vectors: fdot = frac.cell.cell^T, cdot = coords.cell^T
GeoOk(o, k) == Len(o.A.fdot[k]) = Len(o.A.cdot[k]) /\ \A i \in DOMAIN o.A.fdot[k] : Abs(o.A.fdot[k][i] - o.A.cdot[k][i]) <= 1
CCok(o, k) == LET g == o.A.G[k] c == o.A.cryst_const[k] IN
   /\ c[1] = M3(g, 1, 1) /\ c[2] = M3(g, 2, 2) /\ c[3] = M3(g, 3, 3)
   /\ c[4] = M3(g, 2, 3) /\ c[5] = M3(g, 1, 3) /\ c[6] = M3(g, 1, 2)
Det(g) == M3(g,1,1) * (M3(g,2,2) * M3(g,3,3) - M3(g,2,3) * M3(g,3,2))
        - M3(g,1,2) * (M3(g,2,1) * M3(g,3,3) - M3(g,2,3) * M3(g,3,1))
        + M3(g,1,3) * (M3(g,2,1) * M3(g,3,2) - M3(g,2,2) * M3(g,3,1))
\* velocity (scale 256), dt (scale 4), coords (scale 32): v * dt = dx * 16 (central difference)
VelOk(o, k) == LET n == Len(o.A.coords)
                   c == IF k = 1 THEN 2 ELSE IF k = n THEN n - 1 ELSE k IN
   \A i \in DOMAIN o.A.velocity[k] : Abs(o.A.velocity[k][i] * o.dt - (o.A.coords[c+1][i] - o.A.coords[c-1][i]) * 16) <= 24
\* reduced kinetic energy (scale 32000 = 2*16*1000) from velocities on the grid 1/4
EkinOk(o, k) == LET v == o.A.velocity[k] IN
   (\A i \in DOMAIN v : v[i] % 64 = 0 /\ Abs(v[i]) <= 256 * 8) =>
     LET e == SumS([i \in DOMAIN v |-> ((v[i] \div 64) * (v[i] \div 64)) * Mass[o.S.symbols[((i - 1) \div 3) + 1]]])
     IN Abs(o.ekred[k] - e) <= 5 + e \div 5000
DerivedBad(o, P0, tag) ==
  LET P == Range(o.P) new == P \ P0 n == NSteps(o) IN
     (IF (({"coords", "coords_frac"} \cap new # {}) /\ {"coords", "coords_frac", "cell"} \subseteq P)
      THEN Iff(Len(o.A.cdot) = n /\ Len(o.A.fdot) = n /\ Len(o.A.G) = n /\ \A k \in 1..n : GeoOk(o, k), tag \o ":coords_coords_frac_mismatch") ELSE {})
  \cup (IF ({"cell", "cryst_const"} \cap new # {}) /\ {"cell", "cryst_const"} \subseteq P
        THEN Iff(Len(o.A.G) = Len(o.A.cryst_const) /\ \A k \in DOMAIN o.A.G : CCok(o, k), tag \o ":cell_cryst_const_mismatch")
             \cup Iff("cell" \in new => \A k \in DOMAIN o.A.cellup : o.A.cellup[k] = <<0, 0, 0, 1>>, tag \o ":cell_orientation") ELSE {})
  \cup (IF "volume" \in new THEN Iff(Len(o.A.volume) = Len(o.A.G) /\ \A k \in DOMAIN o.A.G : Abs(o.A.volume[k][1] - Det(o.A.G[k])) <= 1, tag \o ":volume") ELSE {})
  \cup (IF "pressure" \in new THEN Iff(Len(o.A.pressure) = Len(o.A.stress) /\ \A k \in DOMAIN o.A.stress :
             o.A.pressure[k][1] = o.A.stress[k][1] + o.A.stress[k][5] + o.A.stress[k][9], tag \o ":pressure") ELSE {})
  \cup (IF "velocity" \in new THEN Iff(Len(o.A.velocity) = n /\ \A k \in 1..n : VelOk(o, k), tag \o ":velocity") ELSE {})
  \cup (IF "time" \in new THEN Iff(Len(o.A.time) = o.N.nstep /\ \A k \in DOMAIN o.A.time : o.A.time[k][1] = (k - 1) * o.dt, tag \o ":time") ELSE {})
  \cup (IF "ekin" \in new THEN Iff(Len(o.ekred) = Len(o.A.velocity) /\ \A k \in DOMAIN o.ekred : EkinOk(o, k), tag \o ":ekin") ELSE {})
  \cup (IF "temperature" \in new THEN Iff(Len(o.teq) = Len(o.A.ekin) /\ \A k \in DOMAIN o.teq : Abs(o.teq[k]) <= 1, tag \o ":temperature") ELSE {})
  \cup (IF "symbols" \in P THEN LET s == o.S.symbols u == Unique(s) IN
          Iff("natoms" \in new => o.N.natoms = Len(s), tag \o ":natoms")
     \cup Iff("symbols_unique" \in new => o.S.symbols_unique = u, tag \o ":symbols_unique")
     \cup Iff("ntypat" \in new => o.N.ntypat = Len(u), tag \o ":ntypat")
     \cup Iff("order" \in new => o.D.order = [i \in DOMAIN u |-> <<u[i], i>>], tag \o ":order")
     \cup Iff("typat" \in new => o.L.typat = [i \in DOMAIN s |-> IndexOf(u, s[i])], tag \o ":typat")
     \cup Iff("nspecies" \in new => o.D.nspecies = [i \in DOMAIN u |-> <<u[i], Cardinality({j \in DOMAIN s : s[j] = u[i]})>>], tag \o ":nspecies")
     \cup Iff("znucl" \in new => o.L.znucl = [i \in DOMAIN s |-> Z[s[i]]], tag \o ":znucl")
     \cup Iff("znucl_unique" \in new => o.L.znucl_unique = [i \in DOMAIN u |-> Z[u[i]]], tag \o ":znucl_unique")
     \cup Iff("mass" \in new => Len(o.M.mass) = Len(s) /\ \A i \in DOMAIN s : Abs(o.M.mass[i] - Mass[s[i]]) <= 10, tag \o ":mass")
     \cup Iff("mass_unique" \in new => Len(o.M.mass_unique) = Len(u) /\ \A i \in DOMAIN u : Abs(o.M.mass_unique[i] - Mass[u[i]]) <= 10, tag \o ":mass_unique")
        ELSE IF "natoms" \in new THEN Iff(o.N.natoms * 3 = Len((IF "coords" \in P THEN o.A.coords ELSE o.A.coords_frac)[1]), tag \o ":natoms") ELSE {})
  \cup (IF "nstep" \in new THEN Iff(o.N.nstep = n, tag \o ":nstep") ELSE {})
  \cup Iff(o.badrank = <<>>, tag \o ":array_rank")

(* ---- state ---- *)
InitSt(hdr) == [objs |-> <<>>, iters |-> <<>>]
Obj(st, ev) == st.objs[ev.i]
Post(st, ev) ==
  CASE ev.op \in {"new", "copy", "item", "slice", "concat", "mean", "mix", "get_traj"} ->
         IF ev.exc = "" THEN [st EXCEPT !.objs = Append(@, ev.o)] ELSE [st EXCEPT !.objs = Append(@, <<>>)]
    [] ev.op \in {"setall", "clear"} -> [st EXCEPT !.objs[ev.i] = ev.o]
    [] ev.op = "iter_start" -> [st EXCEPT !.iters = Append(@, [i |-> ev.i, pos |-> 0])]
    [] ev.op = "iter_next" -> [st EXCEPT !.iters[ev.it].pos = @ + 1]
    [] OTHER -> st

\* q holds exactly step k (0-based) of trajectory o
StepBad(o, q, k, tag) ==
  LET P == Range(o.P) \ TrajOnly IN
     Iff(q.kind = "S", tag \o ":not_a_structure")
  \cup Iff(Range(q.P) = P, tag \o ":step_attributes")
  \cup Iff(\A a \in StepAttrs \cap P \cap Range(q.P) : q.tok[a] = <<o.tok[a][k + 1]>> /\ \A v \in Views(a) : q.A[v] = <<o.A[v][k + 1]>>, tag \o ":wrong_step")
  \cup Iff(SameOther(o, q, TrajOnly), tag \o ":time_independent_attribute")
  \cup Iff(q.badrank = <<>>, tag \o ":array_rank")

Bad(st, ev) ==
  \* the data handed to constructors is never written to
  (IF ev.op = "crash" THEN {} ELSE Iff(ev.raw, "C09:raw_data_changed")) \cup
  CASE ev.op = "crash" -> {"C09,C10,C11,C12:crash"}
    [] ev.op = "new" ->
         LET tag == IF DOMAIN ev.units = {} THEN "C10" ELSE "C09,C10" IN   \* nothing can be said about steps of an object which cannot be built
         IF ev.exc # "" THEN {tag \o ",C11,C12:construction_fails"} ELSE
         LET o == ev.o P0 == GivenSet(ev) IN
            Iff(\A a \in DOMAIN ev.given : a \in Range(o.P) /\ o.A[a] = GivenVal(ev, a), "C09,C10:given_data_not_converted_exactly_once")
         \* and not a bit is lost on the way
         \cup Iff(\A a \in DOMAIN ev.gt : a \in Range(o.P) => LET x == ev.gt[a] IN o.tok[a] = (IF ev.given[a].static THEN [k \in 1..ev.n |-> x[1]] ELSE x),
                 "C09,C10:given_data_not_kept_exactly")
         \cup Iff(DOMAIN ev.given \subseteq Range(o.fine), "C09,C10:given_data_not_kept_exactly")
         \cup Iff("timestep" \in P0 => o.dt = MulD(ev.dt, Fac(ev.units, "time")), "C09,C10:timestep")
         \cup Iff("symbols" \in P0 => o.S.symbols = ev.symbols, "C10:symbols")
         \cup Iff(o.kind = ev.kind, "C10:kind")
         \cup Iff(Range(o.P) = Closure(ev.kind, NSteps(o), P0), tag \o ":attributes_present")
         \cup DerivedBad(o, P0, tag)
    [] ev.op \in {"setall", "clear"} ->
         LET p == Obj(st, ev) o == ev.o P0 == Range(p.P) \ Range(ev.attrs) IN
         IF ev.exc # "" THEN {"C09,C10:recompute_fails"} ELSE
            Iff(\A a \in StepAttrs \cap P0 : a \in Range(o.P) /\ SameStep(p, o, a), "C09,C10:recompute_changes_value")
         \cup Iff(SameOther(p, o, Range(ev.attrs)), "C09,C10:recompute_changes_value")
         \cup Iff(Range(o.P) = Closure(p.kind, NSteps(o), P0), "C10:attributes_present")
         \cup DerivedBad(o, P0, "C09,C10")
    [] ev.op = "copy" ->
         LET p == Obj(st, ev) o == ev.o IN
         IF ev.exc # "" THEN {"C09:copy_fails"} ELSE
            Iff(o.kind = p.kind /\ Range(o.P) = Range(p.P) /\ (\A a \in StepAttrs \cap Range(p.P) : SameStep(p, o, a)) /\ SameOther(p, o, {}),
                "C09:copy_differs")
    [] ev.op = "item" ->
         LET p == Obj(st, ev) n == p.N.nstep inr == ev.k < n /\ ev.k >= 0 - n IN
         IF ~inr THEN Iff(ev.exc = "IndexError", "C11:out_of_range_index_accepted")
         ELSE IF ev.exc # "" THEN {"C11:index_fails"}
         ELSE StepBad(p, ev.o, IF ev.k < 0 THEN ev.k + n ELSE ev.k, "C11")
    [] ev.op = "slice" ->
         LET p == Obj(st, ev) o == ev.o idx == SliceIdx(p.N.nstep, ev.a, ev.b, ev.c)
             s == IF ev.c = <<>> THEN 1 ELSE ev.c[1] IN
         IF ev.exc # "" THEN {"C11:slice_fails"} ELSE
            Iff(o.kind = "T", "C11:not_a_trajectory")
         \cup Iff(Range(o.P) = Range(p.P), "C11:slice_attributes")
         \cup Iff(\A a \in StepAttrs \cap Range(p.P) \cap Range(o.P) : o.tok[a] = Take(p.tok[a], idx) /\ \A v \in Views(a) : o.A[v] = Take(p.A[v], idx), "C11,C09:slice_wrong_steps")
         \cup Iff(o.N.nstep = Len(idx), "C11:slice_nstep")
         \cup Iff("timestep" \in Range(p.P) => o.dt = p.dt * s, "C11:slice_timestep")
         \cup Iff(SameOther(p, o, {"nstep", "timestep"}), "C11:time_independent_attribute")
    [] ev.op = "iter_start" -> Iff(ev.exc = "", "C11:iteration_fails")
    [] ev.op = "iter_next" ->
         LET it == st.iters[ev.it] p == st.objs[it.i] IN
         IF it.pos >= p.N.nstep THEN Iff(ev.exc = "StopIteration", "C11:iteration_too_long")
         ELSE IF ev.exc # "" THEN {"C11:iteration_skips_steps"}
         ELSE StepBad(p, ev.o, it.pos, "C11")
    [] ev.op = "get_traj" ->
         LET p == Obj(st, ev) o == ev.o P0 == Range(p.P) IN
         IF ev.exc # "" THEN {"C12:get_traj_fails"} ELSE
            Iff(o.kind = "T" /\ o.N.nstep = ev.n, "C12:get_traj_nstep")
         \cup Iff(\A a \in StepAttrs \cap P0 : \A v \in Views(a) : a \in Range(o.P) /\ o.A[v] = [k \in 1..ev.n |-> p.A[v][1]] /\ o.tok[a] = [k \in 1..ev.n |-> p.tok[a][1]], "C12,C09:get_traj_values")
         \cup Iff(SameOther(p, o, {}), "C12:get_traj_values")
    [] ev.op = "concat" ->
         LET ps == [k \in DOMAIN ev.is |-> st.objs[ev.is[k]]]
             o == ev.o
             cl(p) == IF p.kind = "S" THEN Closure("T", 1, Range(p.P)) ELSE Range(p.P)
             may == {a \in StepAttrs : \A k \in DOMAIN ps : a \in cl(ps[k])} \ {"time"}
             must == {a \in StepAttrs : \A k \in DOMAIN ps : a \in Range(ps[k].P)} \ {"time"}
             have == StepAttrs \cap Range(o.P)
             glob == {a \in SymAttrs : \A k \in DOMAIN ps : a \in Range(ps[k].P)} IN
         IF ev.exc # "" THEN {"C12:concatenate_fails"} ELSE
            Iff(must \subseteq have, "C12:attribute_lost")
         \cup Iff(have \subseteq may, "C12:attribute_not_in_every_input")
         \cup Iff(\A a \in have \cap must : \A v \in Views(a) : o.A[v] = Cat([k \in DOMAIN ps |-> ps[k].A[v]]) /\ o.tok[a] = Cat([k \in DOMAIN ps |-> ps[k].tok[a]]), "C12:misaligned")
         \cup Iff(glob \subseteq Range(o.P) /\ SameOther(ps[1], o, {"nstep", "timestep"}), "C12:time_independent_attribute")
         \cup Iff(o.kind = "T" /\ o.N.nstep = SumS([k \in DOMAIN ps |-> NSteps(ps[k])]), "C12:nstep")
    [] ev.op = "mean" ->
         LET p == Obj(st, ev) o == ev.o n == p.N.nstep
             keep == (StepAttrs \ {"time"}) \cap Range(p.P)
             vw(a) == IF a = "cryst_const" THEN {"ccraw"} ELSE IF a = "volume" THEN {"volraw"} ELSE {a} IN
         IF ev.exc # "" THEN {"C12:mean_fails"} ELSE
            Iff(Range(o.P) \ {"nstep", "timestep", "time"} = Range(p.P) \ {"nstep", "timestep", "time"}, "C12:mean_attributes")
         \cup Iff(\A a \in keep \cap Range(o.P) : \A v \in vw(a) :
                 Len(o.A[v]) = 1 /\ Len(o.A[v][1]) = Len(p.A[v][1]) /\
                 \A i \in DOMAIN o.A[v][1] : Abs(o.A[v][1][i] - SumS([k \in 1..n |-> p.A[v][k][i]])) <= n, "C12:mean_value")
         \cup Iff((keep \cap Range(p.fine)) \ {"volume"} \subseteq Range(o.fine), "C12:mean_not_exact")
         \cup Iff(SameOther(p, o, {"nstep", "timestep"}), "C12:time_independent_attribute")
    [] ev.op = "mix" ->
         LET p == st.objs[ev.i] q == st.objs[ev.j] o == ev.o
             want == {"coords", "cell"} \cup (IF "forces" \in Range(p.P) /\ "forces" \in Range(q.P) THEN {"forces"} ELSE {}) IN
         IF ev.exc # "" THEN {"C12:mix_fails"} ELSE
            Iff(want \subseteq Range(o.P) /\ ("forces" \in Range(o.P) => "forces" \in want), "C12:mix_attributes")
         \cup Iff(\A a \in want \cap Range(o.P) : Len(o.A[a]) = Len(ev.alpha) /\ \A k \in DOMAIN ev.alpha : Len(o.A[a][k]) = Len(p.A[a][1]) /\
                    \A i \in DOMAIN p.A[a][1] : Abs(o.A[a][k][i] - ((4 - ev.alpha[k]) * p.A[a][1][i] + ev.alpha[k] * q.A[a][1][i])) <= 4, "C12:mix_value")
         \cup Iff(want \cap Range(p.fine) \cap Range(q.fine) \subseteq Range(o.fine), "C12:mix_not_exact")
         \cup Iff(ev.ends, "C12:mix_end_points_not_exact")
         \cup Iff(o.S.symbols = p.S.symbols /\ o.N.nstep = Len(ev.alpha), "C12:mix_steps")
====
