SPECIFICATION Spec
CONSTANTS T = 4
          MaxCols = 5
INVARIANTS Cell Sym Emit
CHECK_DEADLOCK FALSE
