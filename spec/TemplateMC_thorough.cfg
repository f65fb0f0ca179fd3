SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS OrderFree Emit
CHECK_DEADLOCK FALSE
