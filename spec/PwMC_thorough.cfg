SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANTS Align Follows Lost Lens Emit
CHECK_DEADLOCK FALSE
