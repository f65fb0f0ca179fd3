SPECIFICATION Spec
CONSTANTS MaxLen = 6
  Vals = {0, 1, 2}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
