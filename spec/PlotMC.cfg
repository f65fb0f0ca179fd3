SPECIFICATION Spec
CONSTANTS Depth = 3
  EmitMod = 61
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
