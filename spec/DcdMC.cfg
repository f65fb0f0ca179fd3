SPECIFICATION Spec
CONSTANTS MaxAt = 2
          MaxFr = 2
INVARIANTS Agree Prefix Emit
CHECK_DEADLOCK FALSE
