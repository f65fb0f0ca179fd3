SPECIFICATION Spec
CONSTANTS EmitMod = 23
INVARIANTS Divides Solves Unique Inverse WrapLaw AlignLaw EulerLaw Emit
CHECK_DEADLOCK FALSE
