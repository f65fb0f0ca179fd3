---- MODULE Cpmd ----
(* The files a CPMD run leaves in its directory and what the parsers make of them (C24).
   f is the directory:
     nat, sym                      number of atoms, symbols
     geom                          GEOMETRY exists
     scale                         <<>> or <<[cell, frac]>> : GEOMETRY.scale
     tr, ftr                       <<>> or <<lines>> : (F)TRAJECTORY, a line is <<>> (restart marker) or 6 resp. 9 numbers
     en                            <<>> or <<rows>> : ENERGIES, a row has 9, 8 or 6 columns (the first is the step)
     cel, str                      <<>> or <<blocks>> : CELL, STRESS (3x3 blocks)
     out                           [dt, nk, it, conv, etot (seq), stress (seq of blocks), cf (seq of natoms x 6)] the main output
   Numbers are printed with up to 3 decimals, everything here is in 1/1000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
None == [s |-> <<-1>>, d |-> <<>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
InitSt(hdr) == [f |-> <<>>]
Arr1(v) == [s |-> <<Len(v)>>, d |-> v]
Arr2(m) == [s |-> <<Len(m), 3>>, d |-> Cat(m)]
Sca(v) == [s |-> <<>>, d |-> <<v>>]
Last(s) == s[Len(s)]
\* data lines of a trajectory file: everything except the restart markers
Data(lines) == SelectSeq(lines, LAMBDA x : x # <<>>)
NStep(lines, nat) == Len(Data(lines)) \div nat
Cols(lines, nat, a, b) == [s |-> <<NStep(lines, nat), nat, b - a + 1>>, d |-> Cat([i \in DOMAIN Data(lines) |-> SubSeq(Data(lines)[i], a, b)])]
\* the file with the forces is preferred
Lines(f) == IF f.ftr # <<>> THEN f.ftr[1] ELSE IF f.tr # <<>> THEN f.tr[1] ELSE <<>>
HasTr(f) == f.ftr # <<>> \/ f.tr # <<>>
Tr(f, a, b) == IF HasTr(f) THEN Cols(Lines(f), f.nat, a, b) ELSE None
Blocks(q) == IF q = <<>> THEN None ELSE [s |-> <<Len(q[1]), 3, 3>>, d |-> Cat([i \in DOMAIN q[1] |-> Cat(q[1][i])])]
\* columns of ENERGIES: NFI (EKINC (EKINH)) TEMPP EKS ECLASSIC (EHAM) DIS TCPU
Columns == (9 :> <<"nfi", "ekinc", "ekinh", "tempp", "eks", "eclassic", "eham", "dis", "tcpu">>)
        @@ (8 :> <<"nfi", "ekinc", "tempp", "eks", "eclassic", "eham", "dis", "tcpu">>)
        @@ (6 :> <<"nfi", "tempp", "eks", "eclassic", "dis", "tcpu">>)
Names(f) == Columns[Len(f.en[1][1])]
HasCol(f, c) == f.en # <<>> /\ \E i \in DOMAIN Names(f) : Names(f)[i] = c
ColOf(f, c) == LET i == CHOOSE i \in DOMAIN Names(f) : Names(f)[i] = c IN [t \in DOMAIN f.en[1] |-> f.en[1][t][i]]
Col(f, c) == IF HasCol(f, c) THEN Arr1(ColOf(f, c)) ELSE None
ScaleCell(f) == IF f.scale # <<>> THEN Arr2(f.scale[1].cell) ELSE None
MdGet(f, a) ==
  CASE a = "coords" -> Tr(f, 1, 3)
    [] a = "velocity" -> Tr(f, 4, 6)
    [] a = "forces" -> IF f.ftr # <<>> THEN Tr(f, 7, 9) ELSE None
    [] a = "cell" -> IF f.cel # <<>> THEN Blocks(f.cel) ELSE ScaleCell(f)
    [] a = "stress" -> Blocks(f.str)
    [] a = "natoms" -> IF f.geom THEN Sca(1000 * f.nat) ELSE None
    [] a = "temperature" -> Col(f, "tempp")
    [] a = "etot" -> Col(f, "eks")
    [] a = "econst" -> IF HasCol(f, "eham") THEN Col(f, "eham") ELSE Col(f, "eks")
    [] a = "ekin_elec" -> Col(f, "ekinc")
    [] a \in {"ekin_cell", "temperature_cell"} -> Col(f, "ekinh")         \* temperature_cell observed in units of 2/9/kB
    \* ECLASSIC is the energy plus the kinetic energy of the ions
    [] a = "ekin" -> IF f.en = <<>> THEN None ELSE Arr1([t \in DOMAIN f.en[1] |-> ColOf(f, "eclassic")[t] - ColOf(f, "eks")[t]])
    [] a = "timestep" -> IF f.out.dt = 0 THEN None ELSE Sca(f.out.dt)
ScfGet(f, a) ==
  CASE a = "cell" -> ScaleCell(f)
    [] a = "coords_frac" -> IF f.scale # <<>> THEN Arr2(f.scale[1].frac) ELSE None
    [] a = "natoms" -> IF f.geom THEN Sca(1000 * f.nat) ELSE None
    [] a = "etot" -> IF f.out.etot = <<>> THEN None ELSE Sca(Last(f.out.etot))
    [] a = "stress" -> IF f.out.stress = <<>> THEN None ELSE Arr2(Last(f.out.stress))
    [] a = "forces" -> IF f.geom /\ f.out.cf # <<>> THEN Arr2([i \in 1..f.nat |-> SubSeq(Last(f.out.cf)[i], 4, 6)]) ELSE None
    [] a = "nkpoints" -> IF f.out.nk = 0 THEN None ELSE Sca(1000 * f.out.nk)
    [] a = "nstep_scf" -> IF f.out.it = 0 THEN None ELSE Sca(1000 * f.out.it)
    [] a = "scf_converged" -> Sca(IF f.out.conv THEN 1000 ELSE 0)
Want(f, cls, a) == IF cls = "scf" THEN ScfGet(f, a) ELSE MdGet(f, a)
Check(f, cls, a, o) ==
  IF a = "symbols" THEN Iff(o = IF f.scale # <<>> THEN f.sym ELSE <<>>, "C24:" \o cls \o "_symbols")
  ELSE Iff(o = Want(f, cls, a), "C24:" \o cls \o "_" \o a)
Post(st, ev) == IF ev.op = "dir" THEN [f |-> ev.f] ELSE st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C24:crash"}
    [] ev.op = "get" -> IF ev.exc # "" THEN {"C24:fails_" \o ev.cls \o "_" \o ev.a} ELSE Check(st.f, ev.cls, ev.a, ev.o)
    [] ev.op = "all" -> IF ev.exc # "" THEN {"C24:fails_" \o ev.cls \o "_" \o ev.via}
                        ELSE UNION {Check(st.f, ev.cls, ev.as[i].a, ev.as[i].o) : i \in DOMAIN ev.as}
    [] OTHER -> {}
====
