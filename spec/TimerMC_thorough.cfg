SPECIFICATION Spec
CONSTANTS Tags = {"a", "b"}
          Depth = 7
INVARIANTS Independent Measured Emit
CHECK_DEADLOCK FALSE
