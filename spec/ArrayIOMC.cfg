SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS RoundTrip Complete Swapped Emit
CHECK_DEADLOCK FALSE
