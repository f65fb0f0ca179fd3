SPECIFICATION Spec
CONSTANTS MaxG = 5
 MaxW = 3
 EmitMod = 13
INVARIANTS Halve Table VinLaw Minimum Mean Emit
CHECK_DEADLOCK FALSE
