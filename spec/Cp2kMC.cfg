SPECIFICATION Spec
CONSTANTS MaxSteps = 2
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
