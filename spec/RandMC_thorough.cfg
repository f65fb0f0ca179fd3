SPECIFICATION Spec
CONSTANTS K = 4
          NAtoms = 3
          MaxTry = 2
          MaxDraws = 5
          EmitMod = 601
INVARIANTS Apart Complete Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
