SPECIFICATION Spec
CONSTANTS Depth = 4
          WriteMax = 3
          EmitMod = 900
INVARIANTS Inv Emit
PROPERTIES AppendKeeps
CHECK_DEADLOCK FALSE
