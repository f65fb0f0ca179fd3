SPECIFICATION Spec
CONSTANTS Depth = 2
          EmitMod = 29
          Accessed = {"coords", "coords_frac", "cell", "cryst_const", "natoms", "volume", "velocity", "temperature", "time", "nspecies", "mass_unique", "pressure"}
INVARIANTS OrderFree Agree Sensible Emit
CHECK_DEADLOCK FALSE
