---- MODULE StudyMC ----
EXTENDS Study, Json
CONSTANTS Depth, WriteMax, EmitMod
VARIABLES st, hist, code
vars == <<st, hist, code>>
Lit(s) == [t |-> "lit", v |-> s, ph |-> ""]
Ph(k, p) == [t |-> "ph", v |-> k, ph |-> p]
Mach(h) == [host |-> h, subcmd |-> "sub_" \o h, home |-> "/home/" \o h, scratch |-> "/scr",
            job |-> [name |-> "job." \o h, toks |-> <<Lit("run "), Ph("idx", "XXXIDX"), Lit(" in "), Ph("home", "XXXHOME")>>]]
Templ == << [name |-> "pw.in", toks |-> <<Ph("a", "XXXA"), Lit(" "), Ph("b", "XXXB"), Lit(" # "), Ph("calc_name", "XXXCALC_NAME"), Lit("\n")>>] >>
V(k, x) == [k |-> k, sv |-> "i:" \o ToString(x), fv |-> "file" \o ToString(x)]
ParamSets == << <<<<V("a", 1)>>, <<V("a", 2)>>>>, <<<<V("a", 3), V("b", 4)>>>>, <<<<V("b", 5)>>, <<V("a", 6), V("b", 7)>>>> >>
MachSets == << <<Mach("h1")>>, <<Mach("h1"), Mach("h2")>>, <<Mach("h2")>> >>
Cfg == [table |-> "tab", db |-> "study.db", prefix |-> "calc", study |-> "st"]

Init == st = InitSt([cfg |-> Cfg]) /\ hist = <<>> /\ code = 0
Ev(mode, bak, ex, m, p) == [op |-> "write", mode |-> mode, backup |-> bak, excl |-> ex, sleep |-> 3,
                            machines |-> MachSets[m], templates |-> Templ, params |-> ParamSets[p]]
UEv(e) == CASE e[1] = "delrow" -> [op |-> "delrow", idx |-> e[2]]
            [] e[1] = "addcol" -> [op |-> "addcol", col |-> "etot", base |-> 100]
            [] e[1] = "insrow" -> [op |-> "insrow", idx |-> e[2], rev |-> e[3]]
            [] e[1] = "addfile" -> [op |-> "addfile", dir |-> "calc_h1", idx |-> e[2], name |-> "pw.out", text |-> "result"]
            [] e[1] = "rmcalc" -> [op |-> "rmcalc", dir |-> "calc_h1", idx |-> e[2]]
IsUser(e) == e[1] \in UserOps
ToEv(e) == IF IsUser(e) THEN UEv(e) ELSE Ev(e[1], e[2], e[3], e[4], e[5])
Dd == Db(st, Cfg.db)
UserMoves == (IF Len(Dd.idx) > 1 THEN {<<"delrow", Dd.idx[1]>>} ELSE {})
             \cup {<<"insrow", Max(Range(Dd.idx)) + e[1], e[2]>> : e \in {<<3, 0>>, <<2, 4>>}}
             \cup (IF "etot" \notin Dd.cols THEN {<<"addcol">>} ELSE {})
             \cup {<<"addfile", i>> : i \in {i \in {Dd.idx[1]} : \E f \in st.files : f.p[1] = "calc_h1" /\ f.p[2] = ToString(i)}}
             \cup {<<"rmcalc", i>> : i \in {i \in {Dd.idx[Len(Dd.idx)]} : \E f \in st.files : f.p[1] = "calc_h1" /\ f.p[2] = ToString(i)}}
NWrites == Cardinality({i \in DOMAIN hist : ~IsUser(hist[i])})
User == /\ Len(hist) > 0 /\ NWrites < WriteMax /\ Len(hist) < Depth - 1 /\ ~IsUser(hist[Len(hist)])
        /\ \E e \in UserMoves :
             /\ st' = Post(st, UEv(e))
             /\ hist' = Append(hist, e)
             /\ code' = (code * 7 + (IF e[1] = "delrow" THEN 1 ELSE IF e[1] = "insrow" THEN 17 + e[2] ELSE IF e[1] = "addcol" THEN 29 ELSE IF e[1] = "addfile" THEN 41 ELSE 53)) % 997
Write == /\ Len(hist) < Depth /\ NWrites < WriteMax
        /\ \E mode \in {"a", "w"}, bak \in BOOLEAN, ex \in BOOLEAN, m \in {1, 2, 3}, p \in 1..3 :
             /\ (ex => mode = "a")
             /\ st' = Post(st, Ev(mode, bak, ex, m, p))
             /\ hist' = Append(hist, <<mode, bak, ex, m, p>>)
             /\ code' = (code * 7 + (IF mode = "a" THEN 1 ELSE 2) * 5 + (IF bak THEN 3 ELSE 0) + (IF ex THEN 11 ELSE 0) + m * 13 + p) % 997
Next == Write \/ User
Spec == Init /\ [][Next]_vars

D == Db(st, Cfg.db)
\* rows, indices and revisions
Consistent == HasDb(st, Cfg.db) =>
  /\ \A i \in 1..(Len(D.idx)-1) : D.idx[i] < D.idx[i+1]
  /\ (\A i \in DOMAIN hist : hist[i][1] \notin {"delrow", "insrow"}) => D.idx = [i \in 1..Len(D.idx) |-> i - 1]
  /\ Len(D.rows) = Len(D.idx)
  /\ \A i \in 1..(Len(D.rev)-1) : (D.rev[i] <= D.rev[i+1] \/ \E k \in DOMAIN hist : hist[k][1] = "insrow") /\ (D.rev[i+1] <= D.rev[i] + 1 \/ \E k \in DOMAIN hist : hist[k][1] \in {"delrow", "insrow"})
  /\ (\A i \in DOMAIN hist : hist[i][1] \notin {"delrow", "insrow"}) => D.rev[1] = 0
  /\ \A i \in DOMAIN D.rows : D.rows[i].idx = "i:" \o ToString(D.idx[i])
\* every directory of a database index holds one file per template of its machine set, and agrees with its row
DirsAgree == (hist # <<>> /\ ~IsUser(hist[Len(hist)])) => LET e == hist[Len(hist)]
                                ev == Ev(e[1], e[2], e[3], e[4], e[5])
                                n == Len(D.idx) IN
   \A i \in (n - Len(ev.params) + 1)..n, m \in Range(ev.machines) :
      Cardinality({f \in st.files : f.p[1] = MDir(st, m) /\ f.p[2] = ToString(D.idx[i])}) = 2
UniquePaths == \A f, g \in st.files : f.p = g.p => f = g
Inv == Consistent /\ DirsAgree /\ UniquePaths
\* append never disturbs a calculation of the data base (directories left over from a study which was
\* overwritten on other machines are not part of it); backups never change
AppendKeeps == [][ LET last == hist'[Len(hist')] IN ~IsUser(last) =>
    /\ last[1] = "a" => /\ \A f \in st.files : (Len(f.p) = 3 /\ \E i \in DOMAIN Db(st, Cfg.db).idx : f.p[2] = ToString(Db(st, Cfg.db).idx[i])) => f \in st'.files
                        /\ HasDb(st, Cfg.db) => LET o == Db(st, Cfg.db)
                                                    n == Db(st', Cfg.db) IN
                              /\ o.cols \subseteq n.cols
                              /\ \A i \in DOMAIN o.rows : \A c \in n.cols :
                                    n.rows[i][c] = IF c \in o.cols THEN o.rows[i][c] ELSE "none"
    /\ \A d \in st.dbs : d.n # Cfg.db => d \in st'.dbs
    /\ (last[2] /\ HasDb(st, Cfg.db)) => \E d \in st'.dbs : d.n \notin {x.n : x \in st.dbs} /\ d.rows = Db(st, Cfg.db).rows
    /\ \A f \in st.files : f.p[1] \notin {"calc_h1", "calc_h2", "excl_push"} => f \in st'.files
  ]_vars
Emit == (NWrites = WriteMax /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([i \in DOMAIN hist |-> ToEv(hist[i])]))
====
