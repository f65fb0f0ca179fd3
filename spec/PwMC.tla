---- MODULE PwMC ----
(* The output grows block by block as the program runs (SCF, positions, SCF, ...), with any
   choice of printed quantities; every prefix that ends after an SCF (or, "interrupted",
   after positions) is a file.  Emitted: the layouts. *)
EXTENDS Pw, Json
CONSTANTS MaxSteps
VARIABLES lay, blocks
vars == <<lay, blocks>>
Layouts == [cell : BOOLEAN, force : BOOLEAN, stress : BOOLEAN, temp : BOOLEAN, punit : {"", "bohr", "angstrom", "alat", "crystal"}, cunit : {"", "alat", "alat=", "bohr", "angstrom"}]
Init == lay \in {l \in Layouts : (~l.cell => l.cunit = "") /\ l.force = l.stress} /\ blocks = <<>>
Sc(i) == [k |-> "scf", e |-> 100 + i, f |-> IF lay.force THEN <<<<<<i, 2, 3>>>>>> ELSE <<>>, s |-> IF lay.stress THEN <<<<i, 0, 0>>, <<0, i, 0>>, <<0, 0, 1>>>> ELSE <<>>, it |-> i, conv |-> TRUE]
Po(i) == [k |-> "pos", x |-> <<<<i, 0, 1>>>>, cell |-> IF lay.cell THEN <<<<i, 0, 0>>, <<0, i, 0>>, <<0, 0, 1>>>> ELSE <<>>, calat |-> 20,
          ekin |-> IF lay.temp THEN <<i>> ELSE <<>>, temp |-> IF lay.temp THEN <<10 * i>> ELSE <<>>, econst |-> <<>>]
File == [blocks |-> blocks, sym |-> <<"H">>, punit |-> lay.punit, cunit |-> lay.cunit, alat |-> 20, cell0 |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, pos0 |-> <<<<0, 0, 0>>>>, nk |-> 1, dt |-> 0]
Next == /\ Len(blocks) < 2 * MaxSteps + 1 /\ UNCHANGED lay
        /\ blocks' = Append(blocks, IF Len(blocks) % 2 = 0 THEN Sc(Len(blocks) + 1) ELSE Po(Len(blocks) + 1))
Spec == Init /\ [][Next]_vars
\* a complete run is aligned, and the SCF of step t is then simply the (t+1)-th one
Align == (Len(blocks) % 2 = 1 /\ Len(blocks) > 1) <=> Aligned(File)
Follows == Aligned(File) => \A t \in 1..N(File) : ScfOf(File, t)[1] = Scfs(File)[t + 1]
Lost == (blocks # <<>> /\ Len(blocks) % 2 = 0) => ScfOf(File, N(File)) = <<>>
Lens == Aligned(File) => /\ MdLen(File, TRUE, [b |-> Scale(Arr3([t \in 1..N(File) |-> Steps(File)[t].x]), 20)], Arr3([t \in 1..N(File) |-> Steps(File)[t].x]), "alat", [t \in 1..N(File) |-> 20])
                         /\ Arr3([t \in 1..N(File) |-> Aset(File)[t].f]).s # <<>>
Emit == Len(blocks) = 2 * MaxSteps + 1 => PrintT("SC " \o ToJson(lay))
====
