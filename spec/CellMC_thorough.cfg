SPECIFICATION Spec
CONSTANTS EmitMod = 7
          Wide = TRUE
          R <- RR
INVARIANTS VolLaw RecipLaw Recip2 GridLaw GridUnique EvenLaw VoigtLaw IbravLaw IbravSame Emit
CHECK_DEADLOCK FALSE
