SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS OrderFree Emit
CHECK_DEADLOCK FALSE
