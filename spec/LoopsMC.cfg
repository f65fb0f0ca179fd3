SPECIFICATION Spec
CONSTANTS MaxLists = 2
          MaxLen = 2
INVARIANTS Radix FlatKeeps UniqueOk Emit
CHECK_DEADLOCK FALSE
