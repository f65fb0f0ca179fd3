---- MODULE StoreMC ----
(* All short histories of writes and appends over a few keys, some of which are
   prefixes of others; the laws of C14 are checked on the model, the histories
   are emitted for replay. *)
EXTENDS Store, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, code
vars == <<st, hist, code>>
Keys == << <<"a">>, <<"a", "b">>, <<"x", "y">>, <<"x", "z">> >>
Dcts == {<<i>> : i \in 1..4} \cup {<<i, j>> : i, j \in 1..4}
Init == st = InitSt(0) /\ hist = <<>> /\ code = 0
Ev(m, d, n) == [op |-> "write", fn |-> "f", mode |-> m, dct |-> [i \in DOMAIN d |-> [k |-> Keys[d[i]], v |-> n * 10 + i]]]
Next == Len(hist) < Depth /\ \E m \in {"a", "w"}, d \in Dcts :
   LET e0 == Ev(m, d, Len(hist)) e == e0 @@ [after |-> Add(Start(st, e0), e0.dct).ents] IN
   st' = Post(st, e) /\ hist' = Append(hist, [mode |-> m, d |-> d])
   /\ code' = (code * 31 + 7 * d[1] + 3 * Len(d) + d[Len(d)] + (IF m = "a" THEN 0 ELSE 5)) % 509
Spec == Init /\ [][Next]_vars
NoClash == LET e == Ents(st, "f") IN \A i, j \in DOMAIN e : i # j => ~Clash(e[i].k, e[j].k)
Kept == [][ hist'[Len(hist')].mode = "a" => \A x \in Range(Ents(st, "f")) : x \in Range(Ents(st', "f")) ]_vars
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([hist |-> hist, keys |-> Keys]))
====
