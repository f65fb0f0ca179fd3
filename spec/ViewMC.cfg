SPECIFICATION Spec
CONSTANTS Depth = 2
  EmitMod = 1601
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
