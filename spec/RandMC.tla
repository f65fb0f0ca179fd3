---- MODULE RandMC ----
(* The generator as a machine on a small periodic grid: a cell is drawn until it fits, then atom after atom is
   drawn until it keeps its distance from those already there.  Draws are arbitrary.  The emitted draw
   sequences are replayed into the real code in place of its random stream. *)
EXTENDS Rand, Json
CONSTANTS K, NAtoms, MaxTry, MaxDraws, EmitMod
VARIABLES placed, tries, pc, draws, code
vars == <<placed, tries, pc, draws, code>>
Grid == 0..K-1
Pts == Grid \X Grid
RD(a, b) == LET d == Abs(a - b) IN IF d <= K - d THEN d ELSE K - d
D2(p, q) == RD(p[1], q[1]) * RD(p[1], q[1]) + RD(p[2], q[2]) * RD(p[2], q[2])
MinD2 == 2
Init == placed = <<>> /\ tries = 0 /\ pc = "atoms" /\ draws = <<>> /\ code = 0
Clash(p) == \E i \in DOMAIN placed : D2(p, placed[i]) < MinD2
Draw(p) == /\ pc = "atoms" /\ Len(draws) < MaxDraws
           /\ draws' = Append(draws, p) /\ code' = (code * 31 + p[1] * K + p[2] + 1) % 1009
           /\ IF Clash(p) THEN /\ UNCHANGED placed /\ tries' = tries + 1 /\ pc' = IF tries + 1 >= MaxTry THEN "fail" ELSE "atoms"
              ELSE /\ placed' = Append(placed, p) /\ tries' = 0 /\ pc' = IF Len(placed) + 1 = NAtoms THEN "done" ELSE "atoms"
Next == \E p \in Pts : Draw(p)
Spec == Init /\ [][Next]_vars
Apart == \A i, j \in DOMAIN placed : i # j => D2(placed[i], placed[j]) >= MinD2
Complete == (pc = "done" => Len(placed) = NAtoms) /\ (pc = "fail" => Len(placed) < NAtoms /\ tries = MaxTry)
Grows == [][SubSeq(placed', 1, Len(placed)) = placed]_vars
Emit == ((pc # "atoms" \/ Len(draws) = MaxDraws) /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([draws |-> draws, k |-> K, n |-> NAtoms, maxtry |-> MaxTry]))
====
