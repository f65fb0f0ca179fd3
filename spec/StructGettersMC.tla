---- MODULE StructGettersMC ----
(* Structure / Trajectory: any given data, any order of accesses. *)
EXTENDS StructGetters, Json
CONSTANTS Depth, EmitMod, Accessed
VARIABLES st, hist, init, kind, n, code
vars == <<st, hist, init, kind, n, code>>
Inputs(k) == IF k = "struct" THEN {"cell", "cryst_const", "coords", "coords_frac", "symbols", "stress", "volume"}
             ELSE {"cell", "cryst_const", "coords", "coords_frac", "symbols", "timestep", "velocity"}
Start(k, m, P) == LET h == [kind |-> k, n |-> m, init |-> [a \in DOMAIN Graph(k, m) |-> IF a \in P THEN V(1) ELSE None]] IN InitSt(h)
Num == [a \in {"cell", "cryst_const", "coords", "coords_frac", "symbols", "stress", "volume", "timestep", "velocity"} |->
          CASE a = "cell" -> 1 [] a = "cryst_const" -> 2 [] a = "coords" -> 4 [] a = "coords_frac" -> 8 [] a = "symbols" -> 16 [] OTHER -> 32]
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Num[x] + SumOf(S \ {x})
Init == /\ kind \in {"struct", "traj"} /\ n \in (IF kind = "struct" THEN {1} ELSE {2, 3})
        /\ \E P \in SUBSET Inputs(kind) : st = Start(kind, n, P) /\ code = SumOf(P)
        /\ hist = <<>> /\ init = st
Eval(s, a) == [s EXCEPT !.vals = [x \in DOMAIN s.vals |-> IF x \in Needs(s, a) THEN Val(s, x) ELSE s.vals[x]]]
Next == /\ Len(hist) < Depth
        /\ \E a \in Accessed \cap DOMAIN st.g :
            /\ st' = Eval(st, a)
            /\ hist' = Append(hist, [op |-> IF code % 3 = 0 THEN "try" ELSE IF code % 3 = 1 THEN "check" ELSE "return", attrs |-> <<a>>])
            /\ code' = (code * 7 + Cardinality(Needs(st, a)) * 5 + (CASE a = "coords" -> 1 [] a = "cell" -> 2 [] a = "volume" -> 3 [] OTHER -> 11)) % 509
        /\ UNCHANGED <<init, kind, n>>
Spec == Init /\ [][Next]_vars
All == DOMAIN st.g
\* whatever is read and in which order: what an attribute is depends on the given data only
OrderFree == \A x \in All : st.vals[x] # None => st.vals[x] = Val(init, x)
Agree == \A x \in All : Val(st, x) = Val(init, x)
\* positions exist in both forms or in one, and then the other exists with a cell
Sensible == /\ (Val(init, "coords") = None) = (Val(init, "coords_frac") = None /\ ~IsSet(init, "coords")) \/ Val(init, "cell") = None
            /\ (Val(init, "cell") # None) = (Val(init, "cryst_const") # None)
            /\ Val(init, "symbols") # None => Val(init, "natoms") # None /\ Val(init, "mass") # None /\ Val(init, "typat") # None
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) =>
          PrintT("SC " \o ToJson([kind |-> kind, n |-> n, given |-> {x \in All : IsSet(init, x)}, ops |-> hist]))
====
