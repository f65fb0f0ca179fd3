SPECIFICATION Spec
CONSTANTS EmitMod = 47
          MaxN = 8
          Depth = 3
          Protos = {"sc", "bcc", "fcc", "cscl", "nacl", "zns", "diamond", "tetra", "ctetra", "ortho", "perov", "polar", "mono", "tri", "tri1"}
          ShellDepth = 1
VIEW View
INVARIANTS GroupLaw ContentLaw DivLaw ShellLaw Emit
CHECK_DEADLOCK FALSE
