---- MODULE Study ----
(* Parameter studies (C01, C02, C03).
   State = complete content of the study root: a set of files [p |-> path (sequence of
   names), c |-> content] and a set of databases [n |-> name, cols |-> set, rows |-> seq].
   One event = one ParameterStudy.write_input call; Post computes the whole new content. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* hdr.cfg: [table, db, prefix, study]
InitSt(hdr) == [files |-> {}, dbs |-> {}, cfg |-> hdr.cfg]

Tops(st) == {f.p[1] : f \in st.files} \cup {d.n : d \in st.dbs}
Fresh(st, name) == name \o "." \o ToString(Min({n \in 0..60 : name \o "." \o ToString(n) \notin Tops(st)}))
Under(files, top) == {f \in files : f.p[1] = top}
Retop(files, top) == {[p |-> <<top>> \o Tail(f.p), c |-> f.c] : f \in files}
HasDb(st, n) == \E d \in st.dbs : d.n = n
Db(st, n) == CHOOSE d \in st.dbs : d.n = n

\* database value / file value of parameter k in one record (sequence of [k, sv, fv])
Has(rec, k) == \E i \in DOMAIN rec : rec[i].k = k
Get(rec, k) == rec[CHOOSE i \in DOMAIN rec : rec[i].k = k]

Render(toks, rec) ==
  Concat([i \in DOMAIN toks |-> IF toks[i].t = "lit" THEN toks[i].v
            ELSE IF Has(rec, toks[i].v) THEN Get(rec, toks[i].v).fv ELSE toks[i].ph])
\* a template without keys is copied
Copied(tm) == "copy" \in DOMAIN tm /\ tm.copy

AutoRec(cfg, idx, rev) ==
  << [k |-> "revision", sv |-> "i:" \o ToString(rev), fv |-> ToString(rev)],
     [k |-> "study_name", sv |-> "s:" \o cfg.study, fv |-> cfg.study],
     [k |-> "idx", sv |-> "i:" \o ToString(idx), fv |-> ToString(idx)],
     [k |-> "calc_name", sv |-> "s:" \o cfg.study \o "_run" \o ToString(idx), fv |-> cfg.study \o "_run" \o ToString(idx)] >>
MachRec(m) == << [k |-> "subcmd", sv |-> "", fv |-> m.subcmd], [k |-> "scratch", sv |-> "", fv |-> m.scratch],
                 [k |-> "home", sv |-> "", fv |-> m.home] >>

IdxOf(row) == row.idx
RowN(cfg, rows, key) == {r[key] : r \in Range(rows)}

\* numbers are kept as naturals in n_idx / n_rev beside the rows
OldDb(st, ev) == IF ev.mode = "a" /\ HasDb(st, st.cfg.db) THEN Db(st, st.cfg.db)
                 ELSE [n |-> st.cfg.db, cols |-> {}, rows |-> <<>>, idx |-> <<>>, rev |-> <<>>]
NewBase(od) == IF od.idx = <<>> THEN 0 ELSE Max(Range(od.idx)) + 1
NewRev(od) == IF od.rev = <<>> THEN 0 ELSE Max(Range(od.rev)) + 1

NewRecs(st, ev) ==
  LET od == OldDb(st, ev) IN
  [i \in DOMAIN ev.params |-> ev.params[i] \o AutoRec(st.cfg, NewBase(od) + i - 1, NewRev(od))]
Keys(rec) == {rec[i].k : i \in DOMAIN rec}
NewDb(st, ev) ==
  LET od == OldDb(st, ev)
      recs == NewRecs(st, ev)
      cols == od.cols \cup UNION {Keys(recs[i]) : i \in DOMAIN recs} \cup {"hostname"}
      hosts == "s:" \o Join([i \in DOMAIN ev.machines |-> ev.machines[i].host], ",")
  IN [n |-> st.cfg.db, cols |-> cols,
      rows |-> [i \in DOMAIN od.rows |-> [c \in cols |-> IF c \in od.cols THEN od.rows[i][c] ELSE "none"]]
               \o [i \in DOMAIN recs |-> [c \in cols |-> IF c = "hostname" THEN hosts
                                            ELSE IF Has(recs[i], c) THEN Get(recs[i], c).sv ELSE "none"]],
      idx |-> od.idx \o [i \in DOMAIN recs |-> NewBase(od) + i - 1],
      rev |-> od.rev \o [i \in DOMAIN recs |-> NewRev(od)]]

MDir(st, m) == st.cfg.prefix \o "_" \o m.host
RunTxt(st, ev, m) ==
  LET od == OldDb(st, ev) IN
  "here=$(pwd)\n" \o Concat([i \in DOMAIN ev.params |->
      "cd " \o ToString(NewBase(od) + i - 1) \o " && " \o m.subcmd \o " " \o m.job.name
        \o " && cd $here && sleep " \o ToString(ev.sleep) \o "\n"])
CalcFiles(st, ev, m) ==
  LET recs == NewRecs(st, ev)
      templ == ev.templates \o <<m.job>>
  IN {[p |-> <<MDir(st, m), ToString(NewBase(OldDb(st, ev)) + i - 1), templ[t].name>>,
       c |-> Render(templ[t].toks, IF Copied(templ[t]) THEN <<>> ELSE recs[i] \o MachRec(m))] : i \in DOMAIN recs, t \in DOMAIN templ}
     \cup {[p |-> <<MDir(st, m), "run.sh">>, c |-> RunTxt(st, ev, m)]}
Merge(old, new) == {f \in old : \A g \in new : g.p # f.p} \cup new
WriteMachine(st, ev, m, files, tops) ==
  LET d == MDir(st, m)
      old == Under(files, d)
      bakname == Fresh([st EXCEPT !.files = files], d)
      bak == IF ev.backup /\ old # {} THEN Retop(old, bakname) ELSE {}
      keep == IF ev.mode = "w" THEN files \ old ELSE files
  IN Merge(keep, CalcFiles(st, ev, m)) \cup bak
RECURSIVE WriteMachines(_, _, _, _)
WriteMachines(st, ev, ms, files) ==
  IF ms = <<>> THEN files ELSE WriteMachines(st, ev, Tail(ms), WriteMachine(st, ev, Head(ms), files, {}))

OldIdx(od) == Join([i \in DOMAIN od.idx |-> ToString(od.idx[i])], "\n")

\* ---- what the user does between two writes: rows deleted, results stored in the
\* database and in the calculation directories, directories removed ----------------
Drop(s, keep) == LET ks == {k \in DOMAIN s : keep[k]} IN
  [j \in 1..Cardinality(ks) |-> s[CHOOSE k \in ks : Cardinality({q \in ks : q <= k}) = j]]
UserPost(st, ev) ==
  LET d == Db(st, st.cfg.db) IN
  CASE ev.op = "delrow" ->
         LET keep == [i \in DOMAIN d.idx |-> d.idx[i] # ev.idx] IN
         [st EXCEPT !.dbs = (@ \ {d}) \cup {[d EXCEPT !.rows = Drop(d.rows, keep), !.idx = Drop(d.idx, keep), !.rev = Drop(d.rev, keep)]}]
    [] ev.op = "insrow" ->
         [st EXCEPT !.dbs = (@ \ {d}) \cup {[d EXCEPT !.idx = Append(@, ev.idx), !.rev = Append(@, ev.rev),
             !.rows = Append(@, [c \in d.cols |-> CASE c = "idx" -> "i:" \o ToString(ev.idx) [] c = "revision" -> "i:" \o ToString(ev.rev) [] OTHER -> "none"])]}]
    [] ev.op = "addcol" ->
         [st EXCEPT !.dbs = (@ \ {d}) \cup {[d EXCEPT !.cols = @ \cup {ev.col},
             !.rows = [i \in DOMAIN d.rows |-> [c \in d.cols \cup {ev.col} |-> IF c = ev.col THEN "i:" \o ToString(ev.base + d.idx[i]) ELSE d.rows[i][c]]]]}]
    [] ev.op = "addfile" ->
         [st EXCEPT !.files = Merge(@, {[p |-> <<ev.dir, ToString(ev.idx), ev.name>>, c |-> ev.text]})]
    [] ev.op = "rmcalc" ->
         [st EXCEPT !.files = {f \in @ : ~(Len(f.p) >= 2 /\ f.p[1] = ev.dir /\ f.p[2] = ToString(ev.idx))}]

WritePost(st, ev) ==
  LET od == OldDb(st, ev)
      had == HasDb(st, st.cfg.db)
      bakdb == IF ev.backup /\ had THEN {[Db(st, st.cfg.db) EXCEPT !.n = Fresh(st, st.cfg.db)]} ELSE {}
      dbs == {d \in st.dbs : d.n # st.cfg.db} \cup bakdb \cup {NewDb(st, ev)}
      files1 == WriteMachines(st, ev, ev.machines, st.files)
      files2 == IF ev.excl /\ NewRev(od) > 0
                THEN Merge(files1, {[p |-> <<"excl_push">>, c |-> OldIdx(od)]}) ELSE files1
  IN [st EXCEPT !.files = files2, !.dbs = dbs]

Post(st, ev) == IF ev.op = "write" THEN WritePost(st, ev) ELSE UserPost(st, ev)

\* ---- conformance ----------------------------------------------------------
ObsFiles(ev) == {[p |-> ev.snap.files[i].p, c |-> ev.snap.files[i].c] : i \in DOMAIN ev.snap.files}
ObsDb(ev, n) == ev.snap.dbs[CHOOSE i \in DOMAIN ev.snap.dbs : ev.snap.dbs[i].n = n]
ObsDbNames(ev) == {ev.snap.dbs[i].n : i \in DOMAIN ev.snap.dbs}
DbEq(o, d) == Range(o.cols) = d.cols /\ Len(o.cols) = Cardinality(d.cols) /\ o.rows = d.rows

FileClass(st, ev, p) ==
  LET cur == {MDir(st, ev.machines[i]) : i \in DOMAIN ev.machines}
      od == OldDb(st, ev)
      isold == Len(p) >= 2 /\ p[2] \in {ToString(od.idx[i]) : i \in DOMAIN od.idx}
      isnew == Len(p) >= 2 /\ p[2] \in {ToString(NewBase(od) + i - 1) : i \in DOMAIN ev.params}
      mdirs == {f.p[1] : f \in st.files}
  IN IF Len(p) = 2 /\ p[1] \in cur /\ p[2] = "run.sh" THEN "C03:run_script"
     ELSE IF p = <<"excl_push">> THEN "C03:exclusion_list"
     ELSE IF p[1] \in cur /\ isold THEN "C01,C02:earlier_calculation_changed"
     ELSE IF p[1] \in cur /\ isnew THEN "C01,C02:new_calculation_files"
     ELSE IF p[1] \in cur THEN "C02,C01:stray_file_in_calculation_dir"
     ELSE IF p[1] \in mdirs THEN "C01,C03:other_directory_or_backup_changed"
     ELSE "C03:backup_or_stray_entry"

UserOps == {"delrow", "insrow", "addcol", "addfile", "rmcalc"}
Bad(st, ev) ==
  IF ev.op \in UserOps THEN {}
  ELSE IF ev.op # "write" THEN {"C01,C02,C03:crash"}
  ELSE IF ev.exc # "" THEN {"C01,C02,C03:write_raises_" \o ev.exc}
  ELSE
  LET new == Post(st, ev)
      of == ObsFiles(ev)
      fd == (of \ new.files) \cup (new.files \ of)
      nn == {d.n : d \in new.dbs}
      cur == st.cfg.db
      od == OldDb(st, ev)
      nd == Db(new, cur)
      o == ObsDb(ev, cur)
      nold == Len(od.rows)
  IN {FileClass(st, ev, f.p) : f \in fd}
     \cup (IF ObsDbNames(ev) = nn THEN {} ELSE {"C03,C02:databases_present"})
     \cup {"C03:database_backup" : n \in {n \in nn \cap ObsDbNames(ev) : n # cur /\ ~DbEq(ObsDb(ev, n), Db(new, n))}}
     \cup (IF cur \notin ObsDbNames(ev) THEN {"C01,C02:no_database"} ELSE
           (IF Range(o.cols) = nd.cols /\ Len(o.cols) = Cardinality(nd.cols) THEN {} ELSE {"C01,C02:columns"})
           \cup (IF Len(o.rows) = Len(nd.rows) THEN {} ELSE {"C01,C02:row_count"})
           \cup (IF Range(o.cols) = nd.cols /\ Len(o.rows) = Len(nd.rows)
                 THEN (IF \A i \in 1..nold : o.rows[i] = nd.rows[i] THEN {} ELSE {"C01,C02:earlier_rows_changed"})
                      \cup (IF \A i \in (nold+1)..Len(nd.rows) : o.rows[i].idx = nd.rows[i].idx /\ o.rows[i].revision = nd.rows[i].revision
                            THEN {} ELSE {"C01,C02,C03:numbering"})
                      \cup (IF \A i \in (nold+1)..Len(nd.rows) : o.rows[i] = nd.rows[i] THEN {} ELSE {"C02:row_values"})
                 ELSE {}))
====
