SPECIFICATION Spec
CONSTANTS Depth = 2
  EmitMod = 211
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
