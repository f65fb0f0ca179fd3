SPECIFICATION Spec
CONSTANTS EmitMod = 5
INVARIANTS Divides Solves Unique Inverse WrapLaw AlignLaw Emit
CHECK_DEADLOCK FALSE
