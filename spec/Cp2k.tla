---- MODULE Cp2k ----
(* The files of a CP2K run and what the parsers make of them (C25).  f is the directory:
     nat, sym, rt (run type), natp (the number of atoms is printed), dt (0: not printed)
     pos, frc, vel      <<>> or <<steps>>, step = [e, x (natoms x 3)]     PROJECT-*-1.xyz
     en, str, cel       <<>> or <<rows>>  rows of 5 (step kin temp pot cons), 9, 10 (cell and volume) numbers
     fo                 sequence of force blocks in the main output
     etot, stress       <<>> or <<value>>, <<>> or <<3x3>> : single point results in the main output
   Numbers in 1/1000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
None == [s |-> <<-1>>, d |-> <<>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
InitSt(hdr) == [f |-> <<>>]
Arr1(v) == [s |-> <<Len(v)>>, d |-> v]
Arr2(m) == [s |-> <<Len(m), 3>>, d |-> Cat(m)]
Sca(v) == [s |-> <<>>, d |-> <<v>>]
Arr3(ms) == [s |-> <<Len(ms), Len(ms[1]), 3>>, d |-> Cat([i \in DOMAIN ms |-> Cat(ms[i])])]
Xyz(q) == IF q = <<>> THEN None ELSE Arr3([t \in DOMAIN q[1] |-> q[1][t].x])
Col(q, k) == IF q = <<>> THEN None ELSE Arr1([t \in DOMAIN q[1] |-> q[1][t][k]])
Mat(q) == [s |-> <<Len(q), 3, 3>>, d |-> Cat([t \in DOMAIN q |-> SubSeq(q[t], 1, 9)])]
\* forces of the main output; a relaxation prints also those of the start structure, which is no step
Fo(f, cls) == IF f.fo = <<>> THEN None
              ELSE IF cls = "relax" /\ f.pos # <<>> /\ Len(f.fo) = Len(f.pos[1]) + 1 THEN IF Len(f.fo) = 1 THEN [s |-> <<0, f.nat, 3>>, d |-> <<>>] ELSE Arr3(Tail(f.fo)) ELSE Arr3(f.fo)
HasNat(f, cls) == IF cls = "relax" THEN f.pos # <<>> ELSE f.natp
Get(f, cls, a) ==
  CASE a = "natoms" -> IF HasNat(f, cls) THEN Sca(1000 * f.nat) ELSE None
    [] a = "timestep" -> IF f.dt = 0 THEN None ELSE Sca(f.dt)
    [] a = "coords" -> Xyz(f.pos)
    [] a = "velocity" -> Xyz(f.vel)
    [] a = "forces" -> IF f.frc # <<>> THEN Xyz(f.frc) ELSE IF HasNat(f, cls) THEN Fo(f, cls) ELSE None
    [] a = "ekin" -> Col(f.en, 2)
    [] a = "temperature" -> Col(f.en, 3)
    [] a = "etot" -> IF cls = "relax" THEN IF f.pos = <<>> THEN None ELSE Arr1([t \in DOMAIN f.pos[1] |-> f.pos[1][t].e]) ELSE Col(f.en, 4)
    [] a = "econst" -> Col(f.en, 5)
    [] a = "stress" -> IF f.str = <<>> THEN None ELSE Mat(f.str[1])
    [] a = "volume" -> Col(f.cel, 10)
    \* the final calculation of a cell optimisation repeats the last cell
    [] a = "cell" -> IF f.cel = <<>> THEN None
                     ELSE IF cls = "relax" /\ f.rt = "CELL_OPT" THEN IF f.pos = <<>> THEN None ELSE Mat(Append(f.cel[1], f.cel[1][Len(f.cel[1])]))
                     ELSE Mat(f.cel[1])
ScfGet(f, a) ==
  CASE a = "natoms" -> IF f.fo = <<>> THEN None ELSE Sca(1000 * f.nat)
    [] a = "etot" -> IF f.etot = <<>> THEN None ELSE Sca(f.etot[1])
    [] a = "forces" -> IF f.fo = <<>> THEN None ELSE Arr2(f.fo[1])
    [] a = "stress" -> IF f.stress = <<>> THEN None ELSE Arr2(f.stress[1])
HasSym(f, cls) == IF cls = "scf" THEN f.fo # <<>> ELSE HasNat(f, cls) /\ (f.pos # <<>> \/ f.frc # <<>> \/ f.vel # <<>>)
Check(f, cls, a, o) ==
  IF a = "symbols" THEN Iff(o = IF HasSym(f, cls) THEN f.sym ELSE <<>>, "C25:" \o cls \o "_symbols")
  ELSE Iff(o = IF cls = "scf" THEN ScfGet(f, a) ELSE Get(f, cls, a), "C25:" \o cls \o "_" \o a)
Post(st, ev) == IF ev.op = "dir" THEN [f |-> ev.f] ELSE st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C25:crash"}
    [] ev.op = "get" -> IF ev.exc # "" THEN {"C25:fails_" \o ev.cls \o "_" \o ev.a} ELSE Check(st.f, ev.cls, ev.a, ev.o)
    [] ev.op = "all" -> IF ev.exc # "" THEN {"C25:fails_" \o ev.cls \o "_" \o ev.via}
                        ELSE UNION {Check(st.f, ev.cls, ev.as[i].a, ev.as[i].o) : i \in DOMAIN ev.as}
    [] OTHER -> {}
====
