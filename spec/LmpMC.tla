---- MODULE LmpMC ----
(* The cell is recovered from the printed bounds for every origin, lengths and tilts (of any
   sign); columns are chosen one by one in any order. *)
EXTENDS Lmp, Json
CONSTANTS T, MaxCols
VARIABLES lo, tilt, cols, sym
vars == <<lo, tilt, cols, sym>>
Trip == {"xu", "xsu", "fx", "vx", "type"}
Init == lo \in (0 - T)..T /\ tilt \in [1..3 -> (0 - T)..T] /\ cols = <<>> /\ sym \in {"file", "elem", "order", "none"}
\* the column groups matter for one tilt only (they are independent of the cell)
Next == /\ lo = 0 /\ tilt[1] = 1 /\ tilt[2] = 0 - 1 /\ tilt[3] = 1 /\ Len(cols) < MaxCols
        /\ \E c \in Trip : ~In(cols, c) /\ cols' = Append(cols, c)
        /\ UNCHANGED <<lo, tilt, sym>>
Spec == Init /\ [][Next]_vars
L == <<3, 4, 5>>
Cell == BoxCell(Printed(<<lo, lo, lo>>, L, tilt), tilt) = <<L[1], 0, 0, tilt[1], L[2], 0, tilt[2], tilt[3], L[3]>>
F == [head |-> <<"Step">>, runs |-> <<>>, symf |-> IF sym = "file" THEN <<<<"H">>>> ELSE <<>>, elem |-> IF sym = "elem" THEN <<<<"N", "H">>>> ELSE <<>>,
      order |-> IF sym = "order" THEN <<[s |-> "H", t |-> 2]>> ELSE <<>>, dt |-> 0,
      dump |-> <<[nat |-> 1, cols |-> cols, frames |-> <<[b |-> Printed(<<lo, lo, lo>>, L, tilt), t |-> tilt, rows |-> <<[i \in DOMAIN cols |-> IF cols[i] = "type" THEN 2000 ELSE i]>>]>>]>>]
\* however the type is mapped, the same symbol results; without a mapping none
Sym == Symbols(F) = IF sym = "file" \/ (sym # "none" /\ In(cols, "type")) THEN <<"H">> ELSE <<>>
Emit == (cols # <<>> \/ tilt[1] # 1) => PrintT("SC " \o ToJson([lo |-> lo, tilt |-> [i \in 1..3 |-> tilt[i]], cols |-> cols, sym |-> sym]))
====
