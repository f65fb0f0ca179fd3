SPECIFICATION Spec
CONSTANTS MaxQ = 3
          MaxAt = 2
          EmitMod = 3
INVARIANTS Regroup PathLaw Emit
CHECK_DEADLOCK FALSE
