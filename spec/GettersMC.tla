---- MODULE GettersMC ----
EXTENDS Getters, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, init, code
vars == <<st, hist, init, code>>
K(k, v, d) == [kind |-> k, v |-> v, deps |-> d]
G1 == {K("const", 0, <<>>), K("empty", 0, <<>>), K("const", 5, <<>>)}
G2 == {K("const", 1, <<>>), K("empty", 0, <<>>), K("dep", 1, <<"a">>)}
G3 == {K("const", 3, <<>>), K("dep", 1, <<"a">>), K("dep", 2, <<"b">>), K("dep", 3, <<"a", "b">>), K("dep", 4, <<"b", "a">>), K("empty", 0, <<>>)}
Vals0 == {None, V(0), V(7)}
Init == /\ \E x \in G1, y \in G2, z \in G3, i \in Vals0, j \in {None, V(0)} :
             st = [g |-> [a |-> x, b |-> y, c |-> z], vals |-> [a |-> i, b |-> j, c |-> None]]
        /\ hist = <<>> /\ init = st /\ code = 0
\* what the accesses do: try every needed attribute
Eval(s, a) == [s EXCEPT !.vals = [x \in DOMAIN s.vals |-> IF x \in Needs(s, a) THEN Val(s, x) ELSE s.vals[x]]]
Next == /\ Len(hist) < Depth
        /\ \E op \in {"try", "check", "assert_set", "is_set", "return"}, a \in {"a", "b", "c"} :
            /\ st' = IF op = "is_set" THEN st ELSE Eval(st, a)
            /\ hist' = Append(hist, [op |-> op, attrs |-> <<a>>])
            /\ init' = init
            /\ code' = (code * 13 + (CASE op = "try" -> 1 [] op = "check" -> 2 [] op = "return" -> 3 [] op = "is_set" -> 5 [] OTHER -> 4) * 3
                        + (CASE a = "a" -> 0 [] a = "b" -> 1 [] a = "c" -> 2) + init.g["c"].v + init.vals["a"].v) % 509
Spec == Init /\ [][Next]_vars
\* independent of the order of access: every value ever present is the one determined by the initial state
OrderFree == \A x \in {"a", "b", "c"} : st.vals[x] # None => st.vals[x] = Val(init, x)
Agree == \A x \in {"a", "b", "c"} : Val(st, x) = Val(init, x)
EmptyPropagates == \A x \in {"a", "b", "c"} :
   (~IsSet(init, x) /\ init.g[x].kind = "dep" /\ \E d \in Range(init.g[x].deps) : Val(init, d) = None) => st.vals[x] = None
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([g |-> init.g, init |-> init.vals, ops |-> hist]))
====
