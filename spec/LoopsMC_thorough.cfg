SPECIFICATION Spec
CONSTANTS MaxLists = 3
          MaxLen = 2
INVARIANTS Radix FlatKeeps UniqueOk Emit
CHECK_DEADLOCK FALSE
