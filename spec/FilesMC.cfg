SPECIFICATION Spec
CONSTANTS N = 3 T = 2
INVARIANTS XyzInv AxsfInv LmpInv Emit
CHECK_DEADLOCK FALSE
