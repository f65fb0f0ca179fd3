SPECIFICATION Spec
CONSTANTS Depth = 4
  EmitMod = 499
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
