SPECIFICATION Spec
CONSTANTS Depth = 6
          EmitMod = 701
INVARIANTS OwnKeywords Fresh Emit
PROPERTIES Isolated NoLoss
CHECK_DEADLOCK FALSE
