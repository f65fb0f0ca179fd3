SPECIFICATION Spec
CONSTANTS MaxSteps = 3
          MaxNat = 3
INVARIANTS PerStep Which Together Emit
CHECK_DEADLOCK FALSE
