---- MODULE CalcMC ----
(* Histories of constructing, reconfiguring and using calculators.  The abstract program reads the
   input and writes one file; the input hash is a function of structure and settings. *)
EXTENDS Calc, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, code, nrun
vars == <<st, hist, code, nrun>>
V(x) == [v |-> x, n |-> <<>>, l |-> <<>>]
P(k, x) == [k |-> k, v |-> x, n |-> <<>>, l |-> <<>>]
Hdr == [pw |-> <<P("label", "pw"), P("backup", "False"), P("ecutwfc", "80"), P("pp", "None")>>, lmp |-> <<P("label", "lmp"), P("backup", "False"), P("pair_style", "t")>>]
\* op, code, id, structure, keyword, fail
E(op, c, id, s, k, v, f) == [op |-> op, code |-> c, id |-> id, st |-> s, k |-> k, v |-> v, fail |-> f]
Events == << E("new", "pw", 0, "", "", "", FALSE), E("new", "pw", 0, "", "backup", "True", FALSE), E("new", "pw", 0, "", "ecutwfc", "30", FALSE), E("new", "lmp", 0, "", "", "", FALSE), E("new", "lmp", 0, "", "backup", "True", FALSE),
             E("set", "", 1, "", "phys", "a", FALSE), E("set", "", 1, "", "phys", "b", FALSE), E("set", "", 2, "", "phys", "a", FALSE), E("set", "", 1, "", "backup", "True", FALSE),
             E("calc", "", 1, "A", "", "", FALSE), E("calc", "", 1, "B", "", "", FALSE), E("calc", "", 2, "A", "", "", FALSE), E("calc", "", 1, "A", "", "", TRUE), E("calc", "", 2, "B", "", "", FALSE) >>
Phys(c) == IF c = "pw" THEN "ecutwfc" ELSE "pair_style"
Key(e) == IF e.k = "phys" THEN Phys(st.code[e.id]) ELSE e.k
Kw(e) == IF e.k = "" THEN <<>> ELSE <<P(Key(e), e.v)>>
HashIn(e) == e.st \o ToString(st.set[e.id]) \o ToString(e.id)
Full(e) == LET id == e.id IN
   IF e.op # "calc" THEN [op |-> e.op, code |-> e.code, id |-> e.id, kw |-> Kw(e), exc |-> ""]
   ELSE LET b == [op |-> "calc", id |-> id, st |-> e.st, fail |-> e.fail, exc |-> "", d |-> "d" \o ToString(id), nxt |-> <<nrun>>, ran |-> 1,
                  rd |-> <<[n |-> st.set[id]["label"].v \o ".in", h |-> HashIn(e)]>>, wr |-> <<[n |-> st.set[id]["label"].v \o ".out", h |-> "o" \o ToString(nrun)]>>]
        IN IF Must(st, b) THEN b ELSE [b EXCEPT !.ran = 0]
Ok(e) == IF e.op = "new" THEN Len(st.code) < 2 ELSE e.id <= Len(st.code)
Init == st = InitSt(Hdr) /\ hist = <<>> /\ code = 0 /\ nrun = 0
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN Events : /\ Ok(Events[i])
             /\ LET f == Full(Events[i]) IN st' = Post(st, f) /\ nrun' = (IF Events[i].op = "calc" THEN nrun + f.ran ELSE nrun)
             /\ hist' = Append(hist, i) /\ code' = (code * 17 + i) % 1009
Spec == Init /\ [][Next]_vars
\* an operation on one calculator leaves the settings and results of the others and the defaults alone
Isolated == [][ st'.def = st.def /\ LET e == Events[hist'[Len(hist')]] IN \A i \in DOMAIN st.code : (e.op = "new" \/ e.id # i) => st'.set[i] = st.set[i] /\ st'.last[i] = st.last[i] /\ st'.res[i] = st.res[i] ]_vars
\* settings are the defaults overridden by the last value given for each key
OwnKeywords == \A i \in DOMAIN st.code : \A k \in DOMAIN st.set[i] :
   LET new == CHOOSE h \in DOMAIN hist : Events[hist[h]].op = "new" /\ Cardinality({x \in 1..h : Events[hist[x]].op = "new"}) = i
       S == {h \in DOMAIN hist : (h = new \/ (Events[hist[h]].op = "set" /\ Events[hist[h]].id = i)) /\ Key([Events[hist[h]] EXCEPT !.id = i]) = k}
   IN IF S = {} THEN st.set[i][k] = st.def[st.code[i]][k] ELSE st.set[i][k].v = Events[hist[CHOOSE h \in S : \A x \in S : x <= h]].v
\* after a successful calculation the current files of the directory are those of that run, and asking again runs nothing
Fresh == \A i \in DOMAIN st.code : st.last[i].has => LET e == [op |-> "calc", id |-> i, st |-> st.last[i].s, fail |-> FALSE] IN ~Must([st EXCEPT !.set[i] = st.last[i].set], e)
\* with backups switched on nothing that was in a directory is ever lost
Contents(s) == {f.h : f \in s.fs}
NoLoss == [][ LET e == Events[hist'[Len(hist')]] IN (e.op = "calc" /\ st.set[e.id]["backup"].v = "True") => Contents(st) \subseteq Contents(st') ]_vars
Emit == (Len(hist) = Depth /\ code % EmitMod = 0 /\ \E i \in DOMAIN hist : Events[hist[i]].op = "calc") => PrintT("SC " \o ToJson([i \in DOMAIN hist |-> Events[hist[i]]]))
====
