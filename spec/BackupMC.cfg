SPECIFICATION Spec
CONSTANTS Depth = 5
          EmitMod = 97
INVARIANTS Tree Emit
PROPERTIES BackupLaw
CHECK_DEADLOCK FALSE
