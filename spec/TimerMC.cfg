SPECIFICATION Spec
CONSTANTS Tags = {"a", "b"}
          Depth = 5
INVARIANTS Independent Measured Emit
CHECK_DEADLOCK FALSE
