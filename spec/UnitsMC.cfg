SPECIFICATION Spec
CONSTANTS Cls = {"pwscf", "pwmd", "cpmdscf", "cpmdmd", "cp2kscf", "cp2kmd", "lmp"}
          MaxLen = 3
INVARIANTS Override Indep Reads Emit
PROPERTY Stay
CHECK_DEADLOCK FALSE
