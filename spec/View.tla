---- MODULE View ----
(* External viewers (C45).
   State: files = file -> contents label, of the files left on disk by the viewer functions; run = background viewers still running,
   id -> the file they show; calls = number of viewer processes started so far.
   An object is shown by writing it to a file and running  <command> <options> <file>, the output going to a log. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == [files |-> {}, run |-> {}, calls |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}
\* the viewers: name -> program, fixed first arguments, file suffix, only single structures
Viewer(v) ==
  CASE v = "view_xcrysden" -> [prog |-> "xcrysden", pre |-> <<"--axsf">>, suf |-> "axsf", single |-> FALSE]
    [] v = "view_vmd_axsf" -> [prog |-> "vmd", pre |-> <<>>, suf |-> "axsf", single |-> FALSE]
    [] v = "view_vmd_xyz"  -> [prog |-> "vmd", pre |-> <<>>, suf |-> "xyz", single |-> FALSE]
    [] v = "view_jmol"     -> [prog |-> "jmol", pre |-> <<>>, suf |-> "cif", single |-> TRUE]
    [] v = "view_avogadro" -> [prog |-> "avogadro", pre |-> <<>>, suf |-> "cif", single |-> TRUE]
    [] OTHER               -> [prog |-> "custom", pre |-> <<"a1">>, suf |-> "dat", single |-> FALSE]
Refused(ev) == Viewer(ev.v).single /\ ev.traj
Keep(ev) == ev.keep \/ ev.bg
Fails(ev) == ev.fail /\ ~ev.bg
\* names given by the caller; what a call leaves behind: nothing, or the structure and the log file
Named(ev) == {x \in {ev.sfile, ev.lfile} : x # ""}
Temps(ev) == IF Refused(ev) \/ ~Keep(ev) THEN 0 ELSE 2 - Cardinality(Named(ev))
LeftOk(st, ev, left) ==
  LET N == Named(ev) IN
  IF Refused(ev) THEN left = st.files
  ELSE /\ st.files \ N \subseteq left
       /\ Fails(ev) \/ Cardinality(left \ (st.files \cup N)) = Temps(ev)
       /\ Fails(ev) \/ (IF Keep(ev) THEN N \subseteq left ELSE N \cap left = {})
Post(st, ev) ==
  CASE ev.op = "view" -> [files |-> Range(ev.left), run |-> IF ev.bg /\ ~Refused(ev) THEN st.run \cup {st.calls + 1} ELSE st.run,
                          calls |-> IF Refused(ev) THEN st.calls ELSE st.calls + 1]
    [] ev.op = "done" -> [st EXCEPT !.run = {}]
    [] OTHER -> st

ViewBad(st, ev) ==
  LET w == Viewer(ev.v) IN
  IF Refused(ev) THEN (IF ev.exc # "" /\ ev.recs = <<>> /\ Range(ev.left) = st.files THEN {} ELSE {"C45:trajectory_not_refused"})
  ELSE
       (IF (ev.exc # "") = Fails(ev) THEN {} ELSE {"C45:viewer_call_" \o (IF ev.exc = "" THEN "failure_hidden" ELSE ev.exc)})
  \cup (IF Len(ev.recs) # 1 THEN {"C45:called_" \o ToString(Len(ev.recs)) \o "_times"}
        ELSE LET r == ev.recs[1] IN
             (IF r.prog = w.prog THEN {} ELSE {"C45:program"})
        \cup (IF r.args = w.pre \o ev.options THEN {} ELSE {"C45:arguments"})
        \cup (IF r.suf = w.suf /\ (ev.sfile # "" => r.file = ev.sfile) THEN {} ELSE {"C45:file_name"})
        \cup (IF r.text = ev.want THEN {} ELSE {"C45:file_contents"})
        \* in the background the viewer is still there when the call is over, otherwise it is not
        \cup (IF r.over = ~ev.bg THEN {} ELSE {"C45:waiting"})
        \cup (IF Keep(ev) /\ ~Fails(ev) => {<<ev.logs[i].f, ev.logs[i].t>> : i \in DOMAIN ev.logs} = {<<IF ev.lfile # "" THEN ev.lfile ELSE "log", "out err">>} THEN {} ELSE {"C45:log_file"}))
  \cup (IF ev.disp /\ ~ev.bg /\ ~Fails(ev) THEN (IF ev.shown THEN {} ELSE {"C45:output_not_displayed"}) ELSE IF ev.bg \/ ~ev.shown THEN {} ELSE {"C45:output_displayed"})
  \cup (IF LeftOk(st, ev, Range(ev.left)) THEN {} ELSE {"C45:files_left_behind"})
  \cup (IF ev.fds = 0 THEN {} ELSE {"C45:open_files_left_behind"})
  \cup (IF ev.kept THEN {} ELSE {"C45:object_changed"})
  \cup (IF ev.sym = ev.symwant THEN {} ELSE {"C45:symbols"})

Bad(st, ev) ==
  CASE ev.op = "view" -> ViewBad(st, ev)
    [] ev.op = "done" -> (IF ev.over = Cardinality(st.run) /\ Range(ev.left) = st.files THEN {} ELSE {"C45:background_viewers"})
    \* the complete output of a command, unless it writes to its standard error
    [] ev.op = "backtick" -> (IF ev.err # "" THEN (IF ev.exc # "" THEN {} ELSE {"C45:error_output_ignored"})
                              ELSE IF ev.exc = "" /\ ev.res = ev.out THEN {} ELSE {"C45:command_output"})
    [] ev.op = "system" -> IF (ev.exc # "") = (ev.rc # 0) /\ ev.ran = 1 THEN {} ELSE {"C45:exit_status"}
    \* the first of the programs which exists
    [] ev.op = "find" -> LET hit == {i \in DOMAIN ev.names : ev.names[i] \in Range(ev.have)} IN
         IF ev.exc = "" /\ ev.res = (IF hit = {} THEN "" ELSE ev.names[CHOOSE i \in hit : \A j \in hit : i <= j]) THEN {} ELSE {"C45:find_program"}
    [] OTHER -> {"C45:crash"}
====
