SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Vals = {0, 1, 2}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
