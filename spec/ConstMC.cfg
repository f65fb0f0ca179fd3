SPECIFICATION Spec
CONSTANTS Depth = 3
  EmitMod = 23
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
