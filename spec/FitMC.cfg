SPECIFICATION Spec
CONSTANTS MaxC = 2
 MaxD = 3
 EmitMod = 11
INVARIANTS DerivLaw Unique Unique2 Slice Emit
CHECK_DEADLOCK FALSE
