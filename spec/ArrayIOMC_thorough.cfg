SPECIFICATION Spec
CONSTANTS M = 4
INVARIANTS RoundTrip Complete Swapped Emit
CHECK_DEADLOCK FALSE
