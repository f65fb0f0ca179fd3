SPECIFICATION Spec
CONSTANTS MaxLen = 4
  MaxKern = 5
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
