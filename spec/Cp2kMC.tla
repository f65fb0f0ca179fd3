---- MODULE Cp2kMC ----
(* A run of one of the types writes its files step by step; emitted: which files, how many
   steps.  A cell optimisation computes the start structure (printed in the output only),
   steps 1..n, and the final structure once more (everything but the cell file). *)
EXTENDS Cp2k, Json
CONSTANTS MaxSteps
VARIABLES cfg, n, done, pos, fo, cel
vars == <<cfg, n, done, pos, fo, cel>>
Cfgs == [cls : {"md", "relax"}, rt : {"MD", "CELL_OPT", "GEO_OPT"}, nat : {1, 3}, pos : BOOLEAN, frc : BOOLEAN, vel : BOOLEAN, en : BOOLEAN, str : BOOLEAN, cel : BOOLEAN, natp : BOOLEAN, fo : BOOLEAN]
Init == cfg \in {c \in Cfgs : (c.cls = "md" <=> c.rt = "MD") /\ (c.cls = "relax" => ~c.vel /\ ~c.en /\ ~c.frc /\ ~c.natp)} /\ n = 0 /\ done = FALSE
        /\ pos = <<>> /\ cel = <<>> /\ fo = IF cfg.rt = "MD" THEN <<>> ELSE <<[i \in 1..cfg.nat |-> <<0, 0, i>>]>>
M(t) == [i \in 1..cfg.nat |-> <<t, t, i>>]
Step == ~done /\ n < MaxSteps /\ n' = n + 1 /\ pos' = Append(pos, [e |-> n', x |-> M(n')]) /\ fo' = Append(fo, M(n')) /\ cel' = Append(cel, <<n', 0, 0, 0, 1, 0, 0, 0, 1, n'>>) /\ UNCHANGED <<cfg, done>>
Finish == ~done /\ n > 0 /\ done' = TRUE /\ IF cfg.rt = "CELL_OPT" THEN pos' = Append(pos, [e |-> n, x |-> M(n)]) /\ fo' = Append(fo, M(n)) /\ UNCHANGED <<cfg, n, cel>> ELSE UNCHANGED <<cfg, n, pos, fo, cel>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
F == [nat |-> cfg.nat, sym |-> [i \in 1..cfg.nat |-> "H"], rt |-> cfg.rt, natp |-> cfg.natp, dt |-> 1, pos |-> IF cfg.pos THEN <<pos>> ELSE <<>>, frc |-> IF cfg.frc THEN <<pos>> ELSE <<>>,
      vel |-> <<>>, en |-> <<>>, str |-> <<>>, cel |-> IF cfg.cel THEN <<cel>> ELSE <<>>, fo |-> IF cfg.fo THEN fo ELSE <<>>, etot |-> <<>>, stress |-> <<>>]
\* whatever is there has one entry per step, entry t being of step t
Same == done => \A a \in {"coords", "forces", "cell"} : LET w == Get(F, cfg.cls, a) IN
   w = None \/ (w.s[1] = n + (IF cfg.rt = "CELL_OPT" THEN 1 ELSE 0)
                /\ \A t \in 1..n : w.d[(t - 1) * (Len(w.d) \div w.s[1]) + 1] = t)
         \/ (a = "forces" /\ cfg.cls = "relax" /\ ~cfg.pos)
Emit == done => PrintT("SC " \o ToJson([c |-> cfg, n |-> n]))
====
