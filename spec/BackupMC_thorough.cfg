SPECIFICATION Spec
CONSTANTS Depth = 6
          EmitMod = 97
INVARIANTS Tree Emit
PROPERTIES BackupLaw
CHECK_DEADLOCK FALSE
