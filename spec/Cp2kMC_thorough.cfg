SPECIFICATION Spec
CONSTANTS MaxSteps = 6
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
