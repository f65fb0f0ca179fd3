SPECIFICATION Spec
CONSTANTS Cls = {"pwscf", "pwmd", "cpmdmd", "cp2kmd"}
          MaxLen = 4
INVARIANTS Override Indep Reads Emit
PROPERTY Stay
CHECK_DEADLOCK FALSE
