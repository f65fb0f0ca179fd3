SPECIFICATION Spec
CONSTANTS Depth = 3
  Grid = {200, 500, 750}
  EmitMod = 1001
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
