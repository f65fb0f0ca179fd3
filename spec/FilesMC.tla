---- MODULE FilesMC ----
(* All species sequences up to N atoms, 1..T steps, forces or not: the files determine the
   structure (reading a file by the rules of its format inverts writing). *)
EXTENDS Files, Json
CONSTANTS N, T
VARIABLES sym, n, fo
vars == <<sym, n, fo>>
El == <<"Al", "H", "N">>
Init == sym \in UNION {[1..k -> Range(El)] : k \in 1..N} /\ n \in 1..T /\ fo \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Tri == <<<<4, 0, 0>>, <<-1, 3, 0>>, <<1, -2, 5>>>>
F8 == [i \in 1..Len(sym) |-> <<i, 2 * i - 3, 8 - i>>]
S == [sym |-> sym, n |-> n, cell |-> [t \in 1..n |-> [k \in 1..3 |-> [j \in 1..3 |-> 100 * t + 10 * k + j]]],
      coords |-> [t \in 1..n |-> [i \in 1..Len(sym) |-> [k \in 1..3 |-> 1000 * t + 10 * i + k]]],
      forces |-> IF fo THEN [t \in 1..n |-> [i \in 1..Len(sym) |-> [k \in 1..3 |-> 2000 * t + 10 * i + k]]] ELSE <<>>,
      tri |-> Tri, f8 |-> F8]
XyzInv == LET x == Xyz(S, "n") IN Len(x) = n /\ \A t \in 1..n : x[t].n = Len(sym) /\ \A i \in 1..Len(sym) : x[t].atoms[i].sym = sym[i] /\ x[t].atoms[i].x = S.coords[t][i]
AxsfInv == LET x == Axsf(S) IN x.steps = Len(x.frames) /\ \A t \in 1..n, i \in 1..Len(sym) : x.frames[t].atoms[i].f = IF fo THEN S.forces[t][i] ELSE <<>>
\* species can be recovered from type numbers and masses, fractional coordinates from positions
LmpInv == LET x == Lmp(El, S) IN
   /\ \A i \in 1..Len(sym) : x.masses[x.atoms[i].type].m = sym[i] /\ x.atoms[i].id = i
   /\ {x.atoms[i].type : i \in 1..Len(sym)} = 1..x.ntypes
   /\ \A i, j \in 1..Len(sym) : i # j => x.atoms[i].x # x.atoms[j].x
   /\ \A k \in 1..(x.ntypes - 1) : \E a, b \in 1..3 : a < b /\ El[a] = x.masses[k].m /\ El[b] = x.masses[k + 1].m
Emit == PrintT("SC " \o ToJson([sym |-> sym, n |-> n, fo |-> fo]))
====
