SPECIFICATION Spec
CONSTANTS MaxLen = 3
  MaxKern = 4
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
