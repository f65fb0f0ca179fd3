SPECIFICATION Spec
CONSTANTS MaxAt = 3
          MaxFr = 3
INVARIANTS Agree Prefix Emit
CHECK_DEADLOCK FALSE
