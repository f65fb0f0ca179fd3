SPECIFICATION Spec
CONSTANTS EmitMod = 19
          MaxN = 12
          Depth = 4
          Protos = {"sc", "bcc", "fcc", "cscl", "nacl", "zns", "diamond", "tetra", "ctetra", "ortho", "perov", "polar", "mono", "tri", "tri1"}
          ShellDepth = 2
VIEW View
INVARIANTS GroupLaw ContentLaw DivLaw ShellLaw Emit
CHECK_DEADLOCK FALSE
