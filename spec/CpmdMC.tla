---- MODULE CpmdMC ----
(* A run writes its files line by line (all atoms of a step after each other, energies, cell
   and stress at print intervals), may be stopped after any step and restarted with a marker.
   Every reachable complete directory is a scenario. *)
EXTENDS Cpmd, Json
CONSTANTS MaxSteps, MaxNat
VARIABLES cfg, step, lines, en, cel, str, restarts
vars == <<cfg, step, lines, en, cel, str, restarts>>
Cfgs == [nat : 1..MaxNat, ncol : {9, 8, 6}, ftr : BOOLEAN, tr : BOOLEAN, cel : BOOLEAN, every : {0, 1, 2}, scale : BOOLEAN, en : BOOLEAN]
Init == cfg \in {c \in Cfgs : (c.ftr \/ c.tr \/ c.en) /\ (c.scale \/ c.en)} /\ step = 0 /\ lines = <<>> /\ en = <<>> /\ cel = <<>> /\ str = <<>> /\ restarts = 0
V(i, j) == 100 * i + j
Step == /\ step < MaxSteps /\ step' = step + 1
        /\ lines' = lines \o [i \in 1..cfg.nat |-> [j \in 1..9 |-> V(step', j)]]
        /\ en' = Append(en, [j \in 1..cfg.ncol |-> V(step', j)])
        /\ cel' = Append(cel, <<<<step', 0, 0>>, <<0, step', 0>>, <<0, 0, step'>>>>)
        /\ str' = IF cfg.every > 0 /\ step % cfg.every = 0 THEN Append(str, <<<<step', 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>) ELSE str
        /\ UNCHANGED <<cfg, restarts>>
Restart == step < MaxSteps /\ restarts < 1 /\ restarts' = restarts + 1 /\ lines' = Append(lines, <<>>) /\ UNCHANGED <<cfg, step, en, cel, str>>
Next == Step \/ Restart
Spec == Init /\ [][Next]_vars
F == [nat |-> cfg.nat, sym |-> [i \in 1..cfg.nat |-> "H"], geom |-> TRUE, scale |-> IF cfg.scale THEN <<[cell |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, frac |-> [i \in 1..cfg.nat |-> <<0, 0, i>>]]>> ELSE <<>>,
      tr |-> IF cfg.tr THEN <<lines>> ELSE <<>>, ftr |-> IF cfg.ftr THEN <<lines>> ELSE <<>>, en |-> IF cfg.en THEN <<en>> ELSE <<>>, cel |-> IF cfg.cel THEN <<cel>> ELSE <<>>,
      str |-> IF str # <<>> THEN <<str>> ELSE <<>>, out |-> [dt |-> 1, nk |-> 0, it |-> 0, conv |-> TRUE, etot |-> <<>>, stress |-> <<>>, cf |-> <<>>]]
\* every quantity has one entry per step, wherever the run was restarted
PerStep == step > 0 => \A a \in {"coords", "velocity", "forces", "etot", "ekin", "econst", "temperature"} :
   LET w == MdGet(F, a) IN w = None \/ w.s[1] = step
Which == step > 0 => /\ (MdGet(F, "forces") # None) <=> cfg.ftr
                     /\ (MdGet(F, "ekin_cell") # None) <=> (cfg.en /\ cfg.ncol = 9)
                     /\ (MdGet(F, "ekin_elec") # None) <=> (cfg.en /\ cfg.ncol >= 8)
Together == step > 0 /\ cfg.en /\ (cfg.tr \/ cfg.ftr) => \A t \in 1..step : MdGet(F, "coords").d[(t - 1) * 3 * cfg.nat + 1] = V(t, 1) /\ MdGet(F, "etot").d[t] \div 100 = t
Emit == (step = MaxSteps) => PrintT("SC " \o ToJson([c |-> cfg, marks |-> [i \in 1..Len(lines) |-> IF lines[i] = <<>> THEN 1 ELSE 0]]))
====
