SPECIFICATION Spec
CONSTANTS Depth = 2
  Grid = {200, 350, 500, 750}
  EmitMod = 17
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
