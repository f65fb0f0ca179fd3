---- MODULE Calc ----
(* Calculator objects (C34).  A calculator is its settings (class defaults overridden by its own keywords),
   the structure and settings of its last successful calculation, and the results of that calculation.
   Calculation directories hold one current generation of files and numbered backups of older ones.

   Settings are functions  key -> [v |-> printed value, n |-> numbers, l |-> <<[e, f]>> pseudopotential list].
   Events:  new / bad (construction), set, calc (any property of some structure), pre (a file put there before).
   Files are identified by a content hash; the program that was run reports what it read and wrote. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Map(kv) == [k \in {kv[i].k : i \in DOMAIN kv} |-> LET i == CHOOSE i \in DOMAIN kv : kv[i].k = k IN [v |-> kv[i].v, n |-> kv[i].n, l |-> kv[i].l]]
Over(f, kv) == Map(kv) @@ f
InitSt(hdr) == IF "pw" \notin DOMAIN hdr THEN <<>> ELSE [def |-> [pw |-> Map(hdr.pw), lmp |-> Map(hdr.lmp)], code |-> <<>>, set |-> <<>>, last |-> <<>>, res |-> <<>>, touched |-> <<>>, fs |-> {}]
None == [has |-> FALSE]
\* keywords that only say where and how the calculation is run
Same(a, b) == a = b
Must(st, ev) == LET l == st.last[ev.id] IN ~l.has \/ (l.has /\ (~Same(l.s, ev.st) \/ ~Same(l.set, st.set[ev.id])))
May(st, ev) == Must(st, ev) \/ st.touched[ev.id]
\* a list of pseudopotentials has to name one for each element of the structure and no more
Elems(st) == {st.sym[i] : i \in DOMAIN st.sym}
PPfits(st, ev) == IF st.code[ev.id] # "pw" THEN TRUE ELSE LET l == st.set[ev.id]["pp"].l IN l = <<>> \/ (Len(l) = Cardinality(Elems(ev.st)) /\ {l[i].e : i \in DOMAIN l} = Elems(ev.st))

\* ---------------------------------------------------------------- files
Names(code, label) == IF code = "pw" THEN <<label \o ".in", label \o ".out">>
                      ELSE <<label \o ".in", label \o ".out", label \o ".out.dump", label \o ".struct", "log.lammps">>
FEx(fs, d, n) == \E f \in fs : f.d = d /\ f.n = n
FGet(fs, d, n) == CHOOSE f \in fs : f.d = d /\ f.n = n
Put(fs, d, n, h) == {f \in fs : ~(f.d = d /\ f.n = n)} \cup {[d |-> d, n |-> n, h |-> h]}
RECURSIVE Free(_, _, _, _)
Free(fs, d, n, k) == IF FEx(fs, d, n \o "." \o ToString(k)) THEN Free(fs, d, n, k + 1) ELSE k
BackupAll(fs, d, ns) == fs \cup {[d |-> d, n |-> ns[i] \o "." \o ToString(Free(fs, d, ns[i], 0)), h |-> FGet(fs, d, ns[i]).h] : i \in {j \in DOMAIN ns : FEx(fs, d, ns[j])}}
RECURSIVE PutAll(_, _, _, _)
PutAll(fs, d, w, i) == IF i > Len(w) THEN fs ELSE PutAll(Put(fs, d, w[i].n, w[i].h), d, w, i + 1)
\* files after one run: backups of everything of the old generation, the new input, what the program wrote
AfterRun(st, ev) == LET s == st.set[ev.id]
                        b == IF s["backup"].v = "True" THEN BackupAll(st.fs, ev.d, Names(st.code[ev.id], s["label"].v)) ELSE st.fs
                    IN PutAll(PutAll(b, ev.d, ev.rd, 1), ev.d, ev.wr, 1)
Obs(ev) == {[d |-> ev.fs[i].d, n |-> ev.fs[i].n, h |-> ev.fs[i].h] : i \in DOMAIN ev.fs}

\* ---------------------------------------------------------------- transitions
Post(st, ev) ==
  CASE ev.op = "new" /\ ev.exc = "" -> [st EXCEPT !.code = Append(@, ev.code), !.set = Append(@, Over(st.def[ev.code], ev.kw)), !.last = Append(@, None), !.res = Append(@, <<>>), !.touched = Append(@, FALSE)]
    [] ev.op = "set" /\ ev.exc = "" -> [st EXCEPT !.set[ev.id] = Over(@, ev.kw), !.touched[ev.id] = TRUE]
    [] ev.op = "pre" -> [st EXCEPT !.fs = Put(@, ev.d, ev.n, ev.h)]
    [] ev.op = "calc" -> LET a == IF ev.ran = 0 THEN st ELSE [st EXCEPT !.fs = AfterRun(st, ev)] IN
         IF (ev.fail /\ ev.ran > 0) \/ (ev.ran = 0 /\ Must(st, ev)) THEN [a EXCEPT !.last[ev.id] = None]
         ELSE IF ev.ran = 0 THEN a
         ELSE [a EXCEPT !.last[ev.id] = [has |-> TRUE, s |-> ev.st, set |-> st.set[ev.id]], !.touched[ev.id] = FALSE, !.res[ev.id] = ev.nxt]
    [] OTHER -> st

\* ---------------------------------------------------------------- input files
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Mass == [Al |-> 26982, C |-> 12011, Ca |-> 40078, N |-> 14007, Ni |-> 58693, Si |-> 28086, H |-> 1008, O |-> 15999]   \* 1/1000 u
Order == <<"Al", "C", "Ca", "H", "N", "Ni", "O", "Si">>
Rank(s) == CHOOSE i \in DOMAIN Order : Order[i] = s
Ortho(st) == \A i, j \in 1..3 : i # j => st.cell[i][j] = 0
Mod1(f, g) == LET d == (f - g) % 1000000 IN d <= 3 \/ d >= 999997
SamePos(pos, st) == /\ Len(pos) = Len(st.sym) /\ \A i \in DOMAIN pos : pos[i].s = st.sym[i] /\ \A k \in 1..3 : Mod1(pos[i].f[k], 1000 * st.f[i][k])
SameCell(c, st) == Len(c) = 3 /\ \A i, j \in 1..3 : Near(c[i][j], 10000 * st.cell[i][j], 3)
\* a number d is a k-point density (ASE, and the docs: 1/d is the grid spacing): smallest n with n L >= 2 pi d
GridOK(n, L, d) == n * L * 10000 >= 628319 * d - 2000 /\ (n - 1) * L * 10000 <= 628319 * d + 2000
KptsOK(k, s, st) == LET q == s["kpts"].n IN
    /\ Len(k) = 6 /\ k[4] = 0 /\ k[5] = 0 /\ k[6] = 0
    /\ IF Len(q) = 3 THEN SubSeq(k, 1, 3) = q ELSE \A i \in 1..3 : k[i] > 0 /\ (Ortho(st) => GridOK(k[i], st.cell[i][i], q[1]))
PPof(s, e) == LET p == s["pp"] IN IF p.l = <<>> THEN {e \o "." \o p.v} ELSE {p.l[i].f : i \in {j \in DOMAIN p.l : p.l[j].e = e}}
SpeciesOK(sp, s, st) == /\ Len(sp) = Cardinality(Elems(st)) /\ {sp[i].s : i \in DOMAIN sp} = Elems(st)
                        /\ \A i \in DOMAIN sp : sp[i].f \in PPof(s, sp[i].s) /\ Near(sp[i].m, Mass[sp[i].s], 20)
Rho(s) == IF s["ecutrho"].v = "None" THEN 4 * s["ecutwfc"].n[1] ELSE s["ecutrho"].n[1]
PwIn(in, s, st) ==
   (IF in.prefix = s["calc_name"].v /\ in.pseudo_dir = s["pseudo_dir"].v /\ in.outdir = s["outdir"].v THEN {} ELSE {"C34:names_in_input"})
   \cup (IF in.conv_thr = s["conv_thr"].v /\ in.mixing_beta = s["mixing_beta"].v /\ in.mixing_mode = s["mixing_mode"].v
            /\ in.diagonalization = s["diagonalization"].v /\ in.electron_maxstep = s["electron_maxstep"].v THEN {} ELSE {"C34:settings_in_input"})
   \cup (IF in.ecutwfc = s["ecutwfc"].n[1] /\ in.ecutrho = Rho(s) THEN {} ELSE {"C34:cutoff_in_input"})
   \cup (IF in.nat = Len(st.sym) /\ in.ntyp = Cardinality(Elems(st)) THEN {} ELSE {"C34:counts_in_input"})
   \cup (IF SpeciesOK(in.species, s, st) THEN {} ELSE {"C34:species_in_input"})
   \cup (IF SamePos(in.pos, st) THEN {} ELSE {"C34:positions_in_input"})
   \cup (IF SameCell(in.cell, st) THEN {} ELSE {"C34:cell_in_input"})
   \cup (IF KptsOK(in.kpts, s, st) THEN {} ELSE {"C34:kpoints_in_input"})
LmpIn(in, s, st) ==
   (IF in.pair_style = s["pair_style"].v /\ in.pair_coeff = s["pair_coeff"].v THEN {} ELSE {"C34:settings_in_input"})
   \cup (IF in.nat = Len(st.sym) /\ in.ntyp = Cardinality(Elems(st)) THEN {} ELSE {"C34:counts_in_input"})
   \cup (IF SameCell(in.cell, st) THEN {} ELSE {"C34:cell_in_input"})
   \cup (IF Len(in.pos) = Len(st.sym) /\ (\A i \in DOMAIN in.pos : in.pos[i].t = 1 + Cardinality({e \in Elems(st) : Rank(e) < Rank(st.sym[i])})
            /\ \A k \in 1..3 : Mod1(in.pos[i].f[k], 1000 * st.f[i][k])) THEN {} ELSE {"C34:positions_in_input"})

\* ---------------------------------------------------------------- results: energies 1e-6 eV, forces 1e-6 eV/Ang, stress 1e-9 eV/Ang^3
Row(code, x) == IF code = "pw" THEN x * 25711 + (x * 32) \div 1000 ELSE x * 1000
ResOK(code, r, q) ==
   /\ Near(r.e, IF code = "pw" THEN q.e * 13605 + (q.e * 692) \div 1000 ELSE q.e * 1000, 30 + Abs(q.e) \div 100)
   /\ Len(r.f) = Len(q.f) /\ \A i \in DOMAIN q.f : \A k \in 1..3 : Near(r.f[i][k], Row(code, q.f[i][k]), 30 + Abs(q.f[i][k]))
   /\ Len(r.s) = 6 /\ \A k \in 1..6 : Near(r.s[k], IF code = "pw" THEN (0 - q.s[k]) * 624151 ELSE (0 - q.s[k]) * 624, 30 + Abs(q.s[k]) * (IF code = "pw" THEN 50 ELSE 1))

ParamsOK(new, ev) == /\ Len(ev.params) = Len(new.set)
                     /\ \A i \in DOMAIN new.set : Map(ev.params[i]) = new.set[i]
Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C34:crash"} ELSE
  LET new == Post(st, ev) IN
  (IF Map(ev.defpw) = st.def.pw /\ Map(ev.deflmp) = st.def.lmp THEN {} ELSE {"C34:class_defaults_changed"})
  \cup (IF ParamsOK(new, ev) THEN {} ELSE {"C34:parameters_differ"})
  \cup (CASE ev.op \in {"new", "set"} -> IF ev.exc = "" THEN {} ELSE {"C34:" \o ev.op \o "_raises_" \o ev.exc}
          [] ev.op = "bad" -> IF ev.exc # "" THEN {} ELSE {"C34:bad_keyword_accepted"}
          [] ev.op = "calc" ->
               (IF ev.ran = 1 /\ ~May(st, ev) THEN {"C34:needless_run"} ELSE {})
               \cup (IF ev.ran = 0 /\ Must(st, ev) /\ PPfits(st, ev) THEN {"C34:stale_results_used"} ELSE {})
               \cup (IF ev.ran > 1 THEN {"C34:several_runs"} ELSE {})
               \cup (IF ~PPfits(st, ev) /\ May(st, ev) THEN (IF ev.ran = 0 /\ (~Must(st, ev) \/ ev.exc # "") THEN {} ELSE {"C34:unfit_pseudopotentials_used"})
                     ELSE IF ev.ran = 1 /\ ev.fail THEN (IF ev.exc # "" THEN {} ELSE {"C34:failed_run_unnoticed"})
                     ELSE IF ev.exc # "" THEN {"C34:calc_raises_" \o ev.exc}
                     ELSE IF ResOK(st.code[ev.id], ev.r, IF ev.ran = 1 THEN ev.nxt ELSE st.res[ev.id]) THEN {} ELSE {"C34:results_differ"})
               \cup (IF ev.ran = 1 THEN (IF ev.cwd = ev.d THEN {} ELSE {"C34:run_in_other_directory"})
                     \cup (IF "unparsed" \in DOMAIN ev THEN {"C34:input_unreadable"} ELSE IF st.code[ev.id] = "pw" THEN PwIn(ev.inp, st.set[ev.id], ev.st) ELSE LmpIn(ev.inp, st.set[ev.id], ev.st)) ELSE {})
          [] OTHER -> {})
  \cup (IF new.fs \subseteq Obs(ev) THEN {} ELSE {"C34:files_lost_or_not_backed_up"})
  \cup (IF Obs(ev) \subseteq new.fs THEN {} ELSE {"C34:extra_files"})
====
