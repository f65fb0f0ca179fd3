SPECIFICATION Spec
CONSTANTS Depth = 3
          EmitMod = 293
INVARIANTS OrderFree Agree EmptyPropagates Emit
CHECK_DEADLOCK FALSE
