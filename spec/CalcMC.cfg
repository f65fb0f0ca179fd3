SPECIFICATION Spec
CONSTANTS Depth = 5
          EmitMod = 401
INVARIANTS OwnKeywords Fresh Emit
PROPERTIES Isolated NoLoss
CHECK_DEADLOCK FALSE
