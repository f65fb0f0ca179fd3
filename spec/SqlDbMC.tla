---- MODULE SqlDbMC ----
EXTENDS SqlDb, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, code
vars == <<st, hist, code>>
Vals == << <<"i:1">>, <<"i:2", "i:3">>, <<"none", "i:4">>, <<>> , <<"i:5", "i:6", "i:7">> >>
B == [op |-> "", table |-> "", col |-> "", type |-> "INTEGER", values |-> <<>>, cols |-> <<>>, hdr |-> <<>>,
      start |-> 1, extend |-> TRUE, overwrite |-> FALSE, tabs |-> <<>>, exc |-> ""]
Hdr1 == << <<"a", "INTEGER">> >>
Init == /\ st = SetT(InitSt([cur |-> "t"]), "t", [hdr |-> Hdr1, rows |-> <<>>, ids |-> <<>>])
        /\ hist = <<[B EXCEPT !.op = "create", !.hdr = Hdr1]>> /\ code = 0
Do(e, n) == /\ hist' = Append(hist, e)
            /\ code' = (code * 31 + n) % 7919
            \* a refused call either changes nothing or does the part before the refusal
            /\ IF Refused(st, e) THEN st' \in Partial(st, e) ELSE st' = Apply(st, e)
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in {"a", "b"}, v \in DOMAIN Vals, s \in 1..3, x \in BOOLEAN, o \in BOOLEAN, op \in {"fill", "attach"} :
                /\ Fits(st.tabs["t"], [values |-> Vals[v], start |-> s])
                /\ (op = "attach" => Vals[v] # <<>> /\ s < 3 /\ (x \/ o))
                /\ Do([B EXCEPT !.op = op, !.col = c, !.values = Vals[v], !.start = s, !.extend = x, !.overwrite = o],
                     v + 5 * s + (IF x THEN 17 ELSE 0) + (IF o THEN 37 ELSE 0) + (IF op = "fill" THEN 101 ELSE 0) + (IF c = "a" THEN 211 ELSE 0))
           \/ Do([B EXCEPT !.op = "insert", !.cols = <<"a">>, !.values = <<"i:9">>], 401)
           \/ Do([B EXCEPT !.op = "add", !.col = "b"], 409)
           \/ \E s \in {1, 2} : HasId(st.tabs["t"], s) /\ Do([B EXCEPT !.op = "delete", !.start = s], 419 + s)
Spec == Init /\ [][Next]_vars
Tab == st.tabs["t"]
Wellformed == /\ \A i \in DOMAIN Tab.rows : DOMAIN Tab.rows[i] = Cols(Tab)
              /\ Cardinality(Cols(Tab)) = Len(Tab.hdr)
              /\ Len(Tab.ids) = Len(Tab.rows) /\ \A i \in 1..(Len(Tab.ids) - 1) : Tab.ids[i] < Tab.ids[i + 1]
OnlyAddressed == [][ LET e == hist'[Len(hist')]
                         o == Tab
                         n == st'.tabs["t"] IN e.op # "delete" =>
   /\ SubSeq(n.ids, 1, Len(o.ids)) = o.ids
   /\ Len(n.rows) >= Len(o.rows) /\ SubSeq(n.hdr, 1, Len(o.hdr)) = o.hdr
   /\ \A i \in DOMAIN o.rows : \A c \in Cols(o) :
        \/ n.rows[i][c] = o.rows[i][c]
        \/ /\ e.op \in {"fill", "attach"} /\ c = e.col /\ o.ids[i] >= e.start /\ o.ids[i] < e.start + Len(e.values)
           /\ n.rows[i][c] = e.values[o.ids[i] - e.start + 1]
           /\ (o.rows[i][c] # "none" => e.overwrite)
   /\ (e.op = "fill" /\ ~e.extend => Len(n.rows) = Len(o.rows))
   /\ \A i \in (Len(o.rows)+1)..Len(n.rows) : \A c \in Cols(n) : n.rows[i][c] # "none" =>
        (e.op = "insert" \/ (c = e.col /\ n.rows[i][c] \in Range(e.values)))
   /\ (e.op \in {"fill", "attach"} /\ ~Refused(st, e) /\ e.extend /\ e.start <= Last(o) + 1) =>
        \A k \in DOMAIN e.values : n.rows[Pos(n, e.start + k - 1)][e.col] = e.values[k]
   ]_vars
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson(hist))
====
