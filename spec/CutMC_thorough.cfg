SPECIFICATION Spec
CONSTANTS MaxStep = 24
          Starts = {0, 1, 2, 8, 95}
          Ints = {1, 2, 3, 5, 10}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
