CONSTANTS
  MaxOps = 2
  MaxCont = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
