SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxRank = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
