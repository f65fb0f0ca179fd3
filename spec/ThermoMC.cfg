SPECIFICATION Spec
CONSTANTS MaxG = 2
 MaxW = 2
 EmitMod = 9
INVARIANTS Halve Table VinLaw Minimum Mean Emit
CHECK_DEADLOCK FALSE
