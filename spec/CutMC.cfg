SPECIFICATION Spec
CONSTANTS MaxStep = 14
          Starts = {0, 1, 8}
          Ints = {1, 3, 10}
INVARIANTS Exact Emit
CHECK_DEADLOCK FALSE
