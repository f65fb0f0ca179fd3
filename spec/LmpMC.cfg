SPECIFICATION Spec
CONSTANTS T = 2
          MaxCols = 3
INVARIANTS Cell Sym Emit
CHECK_DEADLOCK FALSE
