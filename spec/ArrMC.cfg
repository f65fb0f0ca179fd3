SPECIFICATION Spec
CONSTANTS MaxDim = 2
          MaxRank = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
