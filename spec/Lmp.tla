---- MODULE Lmp ----
(* LAMMPS text output (C26).  f is the run directory:
     head, runs      thermo column names (the first is Step), sequence of runs, each a sequence of rows
     dump            <<>> or <<[nat, cols, frames]>>, frame = [b (3 pairs of printed bounds), t (<<>> or <<xy, xz, yz>>), rows]
     symf            <<>> or <<symbols>> : the symbols file;  elem  <<>> or <<symbols>> : dump_modify element of the echoed input
     order           <<>> or sequence of [sym, type] given by the user
     dt              0 or the timestep
   Numbers in 1/1000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
None == [s |-> <<-1>>, d |-> <<>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
InitSt(hdr) == [f |-> <<>>]
Arr1(v) == [s |-> <<Len(v)>>, d |-> v]
Sca(v) == [s |-> <<>>, d |-> <<v>>]
At(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
In(seq, x) == \E i \in DOMAIN seq : seq[i] = x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Rows(f) == Cat(f.runs)
HasAll(cols, ks) == \A i \in DOMAIN ks : In(cols, ks[i])
Th(f, k) == IF Rows(f) # <<>> /\ In(f.head, k) THEN Arr1([t \in DOMAIN Rows(f) |-> Rows(f)[t][At(f.head, k)]]) ELSE None
ThMat(f, ks, idx, shape) ==
  IF Rows(f) # <<>> /\ HasAll(f.head, ks)
  THEN [s |-> <<Len(Rows(f))>> \o shape, d |-> Cat([t \in DOMAIN Rows(f) |-> [i \in DOMAIN idx |-> Rows(f)[t][At(f.head, ks[idx[i]])]]])] ELSE None
Press == <<"Pxx", "Pyy", "Pzz", "Pxy", "Pxz", "Pyz">>
Du(f, ks) ==
  IF f.dump = <<>> THEN None
  ELSE LET D == f.dump[1] IN
       IF ~HasAll(D.cols, ks) THEN None
       ELSE [s |-> <<Len(D.frames), D.nat, 3>>, d |-> Cat([t \in DOMAIN D.frames |-> Cat([i \in 1..D.nat |-> [k \in 1..3 |-> D.frames[t].rows[i][At(D.cols, ks[k])]]])])]
\* LAMMPS prints the bounds of the box around the tilted cell
BoxCell(b, t) ==
  LET xy == IF t = <<>> THEN 0 ELSE t[1] xz == IF t = <<>> THEN 0 ELSE t[2] yz == IF t = <<>> THEN 0 ELSE t[3]
      X == (b[1][2] - Max({0, xy, xz, xy + xz})) - (b[1][1] - Min({0, xy, xz, xy + xz}))
      Y == (b[2][2] - Max({0, yz})) - (b[2][1] - Min({0, yz}))
  IN <<X, 0, 0, xy, Y, 0, xz, yz, b[3][2] - b[3][1]>>
\* what it prints for a cell with these origin, lengths and tilts (LAMMPS manual)
Printed(lo, L, t) == << <<lo[1] + Min({0, t[1], t[2], t[1] + t[2]}), lo[1] + L[1] + Max({0, t[1], t[2], t[1] + t[2]})>>,
                        <<lo[2] + Min({0, t[3]}), lo[2] + L[2] + Max({0, t[3]})>>, <<lo[3], lo[3] + L[3]>> >>
TypeSym(f, ty) ==         \* <<>> : unknown
  IF f.order # <<>> THEN LET q == SelectSeq(f.order, LAMBDA o : o.t = ty) IN IF q = <<>> THEN <<>> ELSE <<q[1].s>>
  ELSE IF f.elem # <<>> /\ ty \in DOMAIN f.elem[1] THEN <<f.elem[1][ty]>> ELSE <<>>
Symbols(f) ==
  IF f.symf # <<>> THEN f.symf[1]
  ELSE IF f.dump = <<>> \/ ~In(f.dump[1].cols, "type") \/ (f.order = <<>> /\ f.elem = <<>>) THEN <<>>
  ELSE LET D == f.dump[1] IN Cat([i \in 1..D.nat |-> TypeSym(f, D.frames[1].rows[i][At(D.cols, "type")] \div 1000)])
Get(f, a) ==
  CASE a = "natoms" -> IF f.dump = <<>> THEN None ELSE Sca(1000 * f.dump[1].nat)
    [] a = "timestep" -> IF f.dt = 0 THEN None ELSE Sca(f.dt)
    [] a = "temperature" -> Th(f, "Temp")
    [] a = "etot" -> Th(f, "PotEng")
    [] a = "ekin" -> Th(f, "KinEng")
    [] a = "volume" -> Th(f, "Volume")
    [] a = "cryst_const" -> ThMat(f, <<"Cella", "Cellb", "Cellc", "CellAlpha", "CellBeta", "CellGamma">>, <<1, 2, 3, 4, 5, 6>>, <<6>>)
    [] a = "stress" -> ThMat(f, Press, <<1, 4, 5, 4, 2, 6, 5, 6, 3>>, <<3, 3>>)
    [] a = "coords" -> Du(f, <<"xu", "yu", "zu">>)
    [] a = "coords_frac" -> Du(f, <<"xsu", "ysu", "zsu">>)
    [] a = "forces" -> Du(f, <<"fx", "fy", "fz">>)
    [] a = "velocity" -> Du(f, <<"vx", "vy", "vz">>)
    [] a = "cell" -> IF f.dump = <<>> THEN None ELSE LET F == f.dump[1].frames IN [s |-> <<Len(F), 3, 3>>, d |-> Cat([t \in DOMAIN F |-> BoxCell(F[t].b, F[t].t)])]
Check(f, a, o) == IF a = "symbols" THEN Iff(o = Symbols(f), "C26:symbols") ELSE Iff(o = Get(f, a), "C26:" \o a)
Post(st, ev) == IF ev.op = "dir" THEN [f |-> ev.f] ELSE st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C26:crash"}
    [] ev.op = "get" -> IF ev.exc # "" THEN {"C26:fails_" \o ev.a} ELSE Check(st.f, ev.a, ev.o)
    [] ev.op = "all" -> IF ev.exc # "" THEN {"C26:fails_" \o ev.via} ELSE UNION {Check(st.f, ev.as[i].a, ev.as[i].o) : i \in DOMAIN ev.as}
    [] OTHER -> {}
====
