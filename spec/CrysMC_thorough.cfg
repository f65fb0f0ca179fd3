SPECIFICATION Spec
CONSTANTS Depth = 3
          EmitMod = 3
INVARIANTS SliceSane IterSane Emit
CHECK_DEADLOCK FALSE
