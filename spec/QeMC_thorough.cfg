SPECIFICATION Spec
CONSTANTS MaxQ = 4
          MaxAt = 3
          EmitMod = 3
INVARIANTS Regroup PathLaw Emit
CHECK_DEADLOCK FALSE
