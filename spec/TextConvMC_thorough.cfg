SPECIFICATION Spec
CONSTANTS N = 2
          V = {0, 4, 6, 1}
INVARIANTS Laws Shape Emit
CHECK_DEADLOCK FALSE
