SPECIFICATION Spec
CONSTANTS EmitMod = 37
          Wide = FALSE
          R <- RR
INVARIANTS VolLaw RecipLaw Recip2 GridLaw GridUnique EvenLaw VoigtLaw IbravLaw IbravSame Emit
CHECK_DEADLOCK FALSE
