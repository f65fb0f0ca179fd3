SPECIFICATION Spec
CONSTANTS Depth = 4
  EmitMod = 101
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
