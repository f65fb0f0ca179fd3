SPECIFICATION Spec
CONSTANTS N = 5 T = 3
INVARIANTS XyzInv AxsfInv LmpInv Emit
CHECK_DEADLOCK FALSE
