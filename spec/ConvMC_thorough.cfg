SPECIFICATION Spec
CONSTANTS MaxAtoms = 3
  EmitMod = 101
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
