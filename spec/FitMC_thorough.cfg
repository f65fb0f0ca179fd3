SPECIFICATION Spec
CONSTANTS MaxC = 3
 MaxD = 4
 EmitMod = 17
INVARIANTS DerivLaw Unique Unique2 Slice Emit
CHECK_DEADLOCK FALSE
