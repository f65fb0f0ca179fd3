SPECIFICATION Spec
CONSTANTS MaxSteps = 2
INVARIANTS Align Follows Lost Lens Emit
CHECK_DEADLOCK FALSE
