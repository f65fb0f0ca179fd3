SPECIFICATION Spec
CONSTANTS Depth = 5
          EmitMod = 7
INVARIANTS Sound Emit
PROPERTY Complete
CHECK_DEADLOCK FALSE
