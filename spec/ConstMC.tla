---- MODULE ConstMC ----
(* All chains of conversions; the laws say that only the two ends matter. *)
EXTENDS Const, Json
CONSTANTS Depth, EmitMod
VARIABLES st, from, path, code
vars == <<st, from, path, code>>
Init == \E u \in DOMAIN Pot : st = [unit |-> u, ln |-> 0] /\ from = u /\ path = <<>> /\ code = 0
Next == Len(path) < Depth /\ \E e \in DOMAIN Edge, inv \in BOOLEAN :
          /\ Source(e, inv) = st.unit
          /\ st' = Post(st, [op |-> "convert", e |-> e, inv |-> inv]) /\ path' = Append(path, [e |-> e, inv |-> inv]) /\ from' = from
          /\ code' = (code * 31 + Len(e) * 3 + (IF inv THEN 1 ELSE 0) + Abs(Pot[st.unit])) % 4001
Spec == Init /\ [][Next]_vars
Laws == /\ st.ln = Pot[from] - Pot[st.unit]
        /\ Dim[from] = Dim[st.unit]
        /\ \A e, f \in DOMAIN Edge : Edge[e] = Edge[f] => Factor(e, FALSE) = Factor(f, FALSE)
Emit == (Len(path) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([from |-> from, path |-> path]))
====
