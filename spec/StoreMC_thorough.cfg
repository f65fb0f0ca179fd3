SPECIFICATION Spec
CONSTANTS Depth = 3
          EmitMod = 23
INVARIANTS NoClash Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
