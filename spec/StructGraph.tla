---- MODULE StructGraph ----
(* What Structure and Trajectory derive from what: attribute -> alternatives [own, need], see Getters.
   kind: "struct" | "traj"; n: number of time steps (velocities need at least three). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL A(own, need) == [own |-> own, need |-> need]
LOCAL Alt(alts) == [kind |-> "alt", v |-> 1, deps |-> <<>>, alts |-> alts]
LOCAL Nothing == Alt(<<>>)
LOCAL From(need) == Alt(<<A(<<>>, need)>>)
LOCAL Common(shape) ==
  [cell |-> Alt(<<A(<<"cryst_const">>, <<>>)>>), cryst_const |-> Alt(<<A(<<"cell">>, <<>>)>>),
   coords |-> Alt(<<A(<<"coords_frac">>, shape)>>), coords_frac |-> Alt(<<A(<<"coords">>, shape)>>),
   forces |-> Nothing, stress |-> Nothing, etot |-> Nothing, symbols |-> Nothing,
   pressure |-> From(<<"stress">>), volume |-> From(<<"cell">>),
   natoms |-> Alt(<<A(<<"symbols">>, <<>>), A(<<"coords">>, <<>>), A(<<"coords_frac">>, <<>>)>>),
   symbols_unique |-> From(<<"symbols">>), order |-> From(<<"symbols_unique">>), typat |-> From(<<"symbols", "order">>),
   nspecies |-> From(<<"order", "typat">>), ntypat |-> From(<<"symbols_unique">>),
   znucl |-> From(<<"symbols">>), znucl_unique |-> From(<<"symbols_unique">>),
   mass |-> From(<<"symbols">>), mass_unique |-> From(<<"znucl_unique">>)]
LOCAL OnlyTraj(n) ==
  [timestep |-> Nothing, nstep |-> Alt(<<A(<<"coords">>, <<>>), A(<<"coords_frac">>, <<>>)>>),
   time |-> From(<<"timestep", "nstep">>),
   velocity |-> IF n >= 3 THEN From(<<"coords", "timestep">>) ELSE Alt(<<A(<<"velocity">>, <<"coords", "timestep">>)>>),  \* looked for, not found
   ekin |-> From(<<"mass", "velocity">>), temperature |-> From(<<"ekin", "natoms">>)]
Graph(kind, n) == IF kind = "struct" THEN Common(<<"cell">>) ELSE Common(<<"cell", "natoms">>) @@ OnlyTraj(n)
====
