---- MODULE Conv ----
(* The command line converters (C47).
   State: the crystal in the current file: [len : 3 lengths in 1/4 Angstrom, ang : 3 angles in degree (60, 90, 120),
   atoms : sequence of [sym, pos in 1/20 of the cell]]. No tool changes what the crystal is; each one must say it in its own way:
   printed numbers arrive as integers, lengths in 1/10000 of their unit, angles in 1/100 degree, fractions in 1/1000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
InitSt(hdr) == hdr
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)

\* elements, in the order of their types
Elements == <<[sym |-> "Al", z |-> 13, m |-> 269815], [sym |-> "H", z |-> 1, m |-> 10079], [sym |-> "N", z |-> 7, m |-> 140067],
              [sym |-> "O", z |-> 8, m |-> 159994], [sym |-> "Si", z |-> 14, m |-> 280855], [sym |-> "Zr", z |-> 40, m |-> 912240]>>
Used(st) == SelectSeq(Elements, LAMBDA e : \E i \in DOMAIN st.atoms : st.atoms[i].sym = e.sym)
TypeOf(st, sym) == CHOOSE k \in DOMAIN Used(st) : Used(st)[k].sym = sym
Typat(st) == [i \in DOMAIN st.atoms |-> TypeOf(st, st.atoms[i].sym)]
Znucl(st) == [k \in DOMAIN Used(st) |-> Used(st)[k].z]
AtomsOf(st, sym) == SelectSeq(st.atoms, LAMBDA a : a.sym = sym)

\* lengths, in 1/10000
LenAng(st) == [i \in 1..3 |-> st.len[i] * 2500]
ToBohr(x) == ((x * 1889) + ((x * 726) \div 1000)) \div 1000       \* 1 Angstrom = 1.889726 Bohr
LenBohr(st) == [i \in 1..3 |-> ToBohr(LenAng(st)[i])]
Ang100(st) == [i \in 1..3 |-> st.ang[i] * 100]
\* twice the cosine of the angle between vectors i and j
Cos2(d) == CASE d = 60 -> 1 [] d = 90 -> 0 [] d = 120 -> -1
Between(st, i, j) == IF i = j THEN 2 ELSE Cos2(st.ang[6 - i - j])
\* scalar products of the cell vectors: 1/10000 of Angstrom^2, Bohr^2, alat^2
Gram(st, unit, i, j) ==
  LET e == st.len[i] * st.len[j] * Between(st, i, j) IN
  CASE unit = "ang" -> (e * 625) \div 2
    [] unit = "bohr" -> (e * 35711) \div 32
    [] OTHER -> (e * 5000) \div (st.len[1] * st.len[1])
GramOk(st, unit, g) == \A i, j \in 1..3 : Near(g[i][j], Gram(st, unit, i, j), 40 + (Abs(Gram(st, unit, i, j)) \div 1000))
PosOk(atoms, want) == Len(atoms) = Len(want) /\ \A i \in DOMAIN want : \A k \in 1..3 : Near(atoms[i].pos[k], want[i].pos[k] * 50, 1)
AtomsOk(atoms, want) == PosOk(atoms, want) /\ \A i \in DOMAIN want : atoms[i].sym = want[i].sym
Ident(m) == \A i, j \in 1..3 : Near(m[i][j], IF i = j THEN 1000 ELSE 0, 1)

If(ok, name) == IF ok THEN {} ELSE {"C47:" \o name}
CellOk(st, ev) == NearSeq(ev.len, LenAng(st), 6) /\ NearSeq(ev.ang, Ang100(st), 3)

PwBad(st, p) ==
     If(Near(p.celldm[1], LenBohr(st)[1], 6) /\ Near(p.celldm[2], (st.len[2] * 10000) \div st.len[1], 6) /\ Near(p.celldm[3], (st.len[3] * 10000) \div st.len[1], 6)
        /\ \A k \in 1..3 : Near(p.celldm[3 + k], Cos2(st.ang[k]) * 5000, 6), "pw_celldm")
  \cup If(p.nat = <<Len(st.atoms), Len(st.atoms)>> /\ p.ntyp = <<Len(Used(st)), Len(Used(st))>>, "pw_counts")
  \cup If(GramOk(st, "alat", p.alat) /\ GramOk(st, "ang", p.angstrom) /\ GramOk(st, "bohr", p.bohr) /\ p.right, "pw_cell")
  \cup If(Len(p.species) = Len(Used(st)) /\ \A k \in DOMAIN p.species : LET u == Used(st)[k] s == p.species[k] IN s.sym = u.sym /\ Near(s.m, u.m, 1) /\ s.file = u.sym \o ".UPF", "pw_species")
  \cup If(AtomsOk(p.atoms, st.atoms), "pw_positions")
AbinitBad(st, p) ==
     If(p.natom = Len(st.atoms) /\ p.ntypat = Len(Used(st)), "abinit_counts")
  \cup If(p.typat = Typat(st), "abinit_typat")
  \cup If(p.znucl = Znucl(st), "abinit_znucl")
  \cup If(NearSeq(p.acell, LenBohr(st), 6) /\ NearSeq(p.angdeg, Ang100(st), 3), "abinit_cell")
  \cup If(PosOk(p.xred, st.atoms), "abinit_positions")
  \cup If(p.pseudo = [k \in DOMAIN Used(st) |-> <<Used(st)[k].sym, Used(st)[k].z>>], "abinit_pseudos")
CpmdBad(st, p) ==
     If(NearSeq(p.len, LenBohr(st), 6) /\ NearSeq(p.ang, Ang100(st), 3), "cpmd_cell")
  \cup If(/\ Len(p.groups) = Len(Used(st))
          /\ {p.groups[k].sym : k \in DOMAIN p.groups} = {Used(st)[k].sym : k \in DOMAIN Used(st)}
          /\ \A k \in DOMAIN p.groups : LET g == p.groups[k] IN g.n = Len(g.atoms) /\ PosOk(g.atoms, AtomsOf(st, g.sym)), "cpmd_atoms")
Cp2kBad(st, p) ==
     If(NearSeq(p.len, LenAng(st), 6) /\ NearSeq(p.ang, Ang100(st), 3), "cp2k_cell")
  \cup If(AtomsOk(p.atoms, st.atoms), "cp2k_positions")
  \cup If(p.kinds = [k \in DOMAIN Used(st) |-> Used(st)[k].sym], "cp2k_kinds")
\* products of the printed reciprocal vectors with the printed cell vectors, over 2 pi, in 1/1000
GeneralBad(st, p) ==
     If(Ident(p.bohr) /\ Ident(p.angstrom), "reciprocal_cell")
  \cup If(\A i, j \in 1..3 : Near((p.rrel[i] \div 2) * p.norms[j], (p.rrel[j] \div 2) * p.norms[i], 250000) /\ p.rrel[i] >= 9999, "reciprocal_lengths")
  \cup If(\E i \in 1..3 : Near(p.rrel[i], 10000, 1), "reciprocal_lengths")
  \* points per direction: the length over the spacing, rounded, at least one
  \cup If(/\ [k \in DOMAIN p.grids |-> p.grids[k].h] = <<2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000>>
          /\ \A k \in DOMAIN p.grids : \A i \in 1..3 : LET g == p.grids[k] n == g.size[i] IN
               \/ n >= 1 /\ 2 * Abs((n * g.h) - p.norms[i]) <= g.h + 4
               \/ n = 1 /\ 2 * p.norms[i] <= g.h + 4, "kpoint_grids")

\* a stand-in for Gromacs puts molecules (water if there is no other) at the positions ev.pos
Mol(ev) == IF ev.mol = <<>> THEN <<"O", "H", "H">> ELSE ev.mol
Solvated(st, ev) == [st EXCEPT !.atoms = @ \o [i \in DOMAIN ev.pos |-> [sym |-> Mol(ev)[((i - 1) % Len(Mol(ev))) + 1], pos |-> ev.pos[i]]]]
SolvateBad(st, ev) ==
  CASE ev.kind = "none" -> If(ev.rc # 0 /\ ev.error /\ ev.files = <<>>, "solvate_no_args")
    [] ev.kind = "help" -> If(ev.rc = 0 /\ ev.usage /\ ev.files = <<>>, "solvate_usage")
    [] OTHER -> LET n == Solvated(st, ev) IN
         If(Len(ev.pos) = ev.nmol * Len(Mol(ev)) /\ ev.passed, "solvate_options")
    \cup If(ev.files = <<"OUT.cif", "OUT.cif.txt", "OUT.pdb">> \o (IF ev.mol = <<>> THEN <<"water.pdb">> ELSE <<>>) /\ ev.kept, "solvate_files")
    \cup If(CellOk(st, ev) /\ AtomsOk(ev.atoms, n.atoms), "solvate_crystal")
    \cup If(AtomsOk(ev.txt, n.atoms), "solvate_text")
    \cup If(ev.said /\ ev.warned = ev.bad, "solvate_messages")
Post(st, ev) == IF ev.op = "solvate" /\ ev.exc = "" /\ ev.kind = "run" THEN Solvated(st, ev) ELSE st
Bad(st, ev) ==
  IF ev.op = "usage" THEN If(ev.exc = "" /\ ev.files = 0 /\ ev.said, "usage")
  ELSE IF ev.exc # "" THEN {"C47:" \o ev.op \o "_" \o ev.exc}
  ELSE CASE ev.op = "pdb2cif" -> If(CellOk(st, ev), "pdb2cif_cell") \cup If(AtomsOk(ev.atoms, st.atoms), "pdb2cif_atoms") \cup If(ev.written = <<ev.target>> /\ ev.kept, "pdb2cif_files")
    [] ev.op = "solvate" -> SolvateBad(st, ev)
    [] ev.op = "sgroup" -> If(CellOk(st, ev), "sgroup_cell") \cup If(ev.n = Len(st.atoms) /\ AtomsOk(ev.atoms, st.atoms), "sgroup_atoms") \cup If(ev.lat = "P", "sgroup_lattice")
    [] ev.op = "any" -> PwBad(st, ev.pw) \cup AbinitBad(st, ev.abinit) \cup CpmdBad(st, ev.cpmd) \cup Cp2kBad(st, ev.cp2k) \cup GeneralBad(st, ev.general)
    \* a density of states with 3 * natom modes, its axis in a header before the unchanged file
    [] ev.op = "fqha" -> If(ev.natom = <<ev.n, ev.n>> /\ ev.nstep = ev.rows /\ ev.emax = ev.last /\ ev.de = ev.step, "fqha_header") \cup If(ev.copied, "fqha_data")
    [] ev.op = "dispersion" -> If(ev.lines = [b \in DOMAIN ev.freqs |-> <<ev.norm, ev.freqs[b]>>], "dispersion")
    [] OTHER -> {"C47:crash"}
====
