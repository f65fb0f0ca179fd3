SPECIFICATION Spec
CONSTANTS Depth = 3
          EmitMod = 67
INVARIANTS Wellformed Emit
PROPERTIES OnlyAddressed
CHECK_DEADLOCK FALSE
