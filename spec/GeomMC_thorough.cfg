SPECIFICATION Spec
CONSTANTS EmitMod = 7
          N = 3
INVARIANTS RedLaw SepLaw MinLaw ScLaw ScDist NNLaw Emit
CHECK_DEADLOCK FALSE
