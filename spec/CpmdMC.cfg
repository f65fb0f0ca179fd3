SPECIFICATION Spec
CONSTANTS MaxSteps = 2
          MaxNat = 2
INVARIANTS PerStep Which Together Emit
CHECK_DEADLOCK FALSE
