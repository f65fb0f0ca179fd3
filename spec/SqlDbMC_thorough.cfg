SPECIFICATION Spec
CONSTANTS Depth = 4
          EmitMod = 997
INVARIANTS Wellformed Emit
PROPERTIES OnlyAddressed
CHECK_DEADLOCK FALSE
