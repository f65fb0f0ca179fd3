SPECIFICATION Spec
CONSTANTS Depth = 3
          EmitMod = 61
INVARIANTS SliceSane IterSane Emit
CHECK_DEADLOCK FALSE
