---- MODULE ConvMC ----
(* All small crystals and tool chains. *)
EXTENDS Conv, Json
CONSTANTS MaxAtoms, EmitMod
VARIABLES st, tools, code
vars == <<st, tools, code>>
Angs == {<<90, 90, 90>>, <<90, 90, 120>>, <<90, 90, 60>>, <<60, 60, 60>>, <<90, 60, 90>>, <<120, 90, 90>>}
Syms == {"Al", "H", "N", "Zr"}
Pos == {<<0, 0, 0>>, <<10, 5, 15>>, <<3, 19, 7>>}
Init == st \in [len : {<<12, 14, 17>>, <<16, 16, 16>>, <<11, 30, 9>>}, ang : Angs, atoms : {<<>>}] /\ tools = <<>> /\ code = 0
Word == st.len[1] + (7 * st.len[2]) + (st.ang[1] \div 10) + (st.ang[3] \div 3) + (11 * st.ang[2])
AddAtom == Len(st.atoms) < MaxAtoms /\ tools = <<>> /\ \E s \in Syms, p \in Pos :
             st' = [st EXCEPT !.atoms = Append(@, [sym |-> s, pos |-> p])] /\ tools' = tools /\ code' = (code * 13 + (3 * Len(s)) + TypeOf([st EXCEPT !.atoms = Append(@, [sym |-> s, pos |-> p])], s) + p[1] + p[2]) % 4001
Use == st.atoms # <<>> /\ Len(tools) < 2 /\ \E t \in {"pdb2cif", "any", "sgroup"} :
         (t = "pdb2cif" => tools = <<>>) /\ tools' = Append(tools, t) /\ st' = st /\ code' = (code * 17 + Len(t) + Word) % 4001
Next == AddAtom \/ Use
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Laws == /\ \A i \in DOMAIN st.atoms : Used(st)[Typat(st)[i]].sym = st.atoms[i].sym
        /\ LET c == [k \in DOMAIN Used(st) |-> Len(AtomsOf(st, Used(st)[k].sym))] IN Sum(c, Len(c)) = Len(st.atoms) /\ \A k \in DOMAIN c : c[k] > 0
        /\ Len(Znucl(st)) <= Len(st.atoms)
        /\ \A i \in 1..3 : Near(Gram(st, "ang", i, i), (LenAng(st)[i] \div 100) * (LenAng(st)[i] \div 100), 1) /\ Gram(st, "bohr", i, i) > 3 * Gram(st, "ang", i, i)
        /\ Near(Gram(st, "alat", 1, 1), 10000, 0)
        /\ \A i, j \in 1..3 : Abs(Gram(st, "ang", i, j)) <= Gram(st, "ang", i, i) + Gram(st, "ang", j, j)
Emit == (Len(tools) = 2 /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([st |-> st, tools |-> tools]))
====
