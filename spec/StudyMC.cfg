SPECIFICATION Spec
CONSTANTS Depth = 3
          WriteMax = 2
          EmitMod = 150
INVARIANTS Inv Emit
PROPERTIES AppendKeeps
CHECK_DEADLOCK FALSE
