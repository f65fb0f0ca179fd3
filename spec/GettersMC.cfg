SPECIFICATION Spec
CONSTANTS Depth = 2
          EmitMod = 41
INVARIANTS OrderFree Agree EmptyPropagates Emit
CHECK_DEADLOCK FALSE
