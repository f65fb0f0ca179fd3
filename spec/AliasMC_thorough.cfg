SPECIFICATION Spec
CONSTANTS Depth = 5
          EmitMod = 1
INVARIANTS Sound Emit
PROPERTY Complete
CHECK_DEADLOCK FALSE
