SPECIFICATION Spec
CONSTANTS EmitMod = 29
          N = 3
INVARIANTS RedLaw SepLaw MinLaw ScLaw ScDist NNLaw Emit
CHECK_DEADLOCK FALSE
