SPECIFICATION Spec
CONSTANTS MaxAtoms = 2
  EmitMod = 83
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
