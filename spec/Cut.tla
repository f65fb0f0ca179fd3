---- MODULE Cut ----
(* Cutting runs with cut-cpmd.sh and cut-cp2k.sh (C29).  A run directory is a sequence of output
   files; a file is a sequence of chunks [s, n]: n lines which belong to step s (s = -1: header
   or restart-marker lines, which belong to no step).  listed: the script knows the file.
     cut [step, sim, noinpl]  rc (exit status), after: per file [kept, bak, fresh, out]:
       kept   number of lines left if they are the first ones of the file, unchanged; else -1
       bak    "same": some backup copy of the file holds exactly what the file held before; "none": no such copy, "bad": a wrong copy was written
       fresh  a backup copy was written;  out: for noinpl, the lines to be kept were printed
     new: files which appeared and are no backup copies of listed files, or disappeared *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
InitSt(hdr) == [fs |-> <<>>]
RECURSIVE Keep(_, _), Lines(_)
\* everything before the first chunk of a step >= s
Keep(ch, s) == IF ch = <<>> \/ Head(ch).s >= s THEN <<>> ELSE <<Head(ch)>> \o Keep(Tail(ch), s)
Lines(ch) == IF ch = <<>> THEN 0 ELSE Head(ch).n + Lines(Tail(ch))
CutFile(f, ev) == IF ev.sim \/ ev.noinpl \/ ~f.listed THEN f ELSE [f EXCEPT !.ch = Keep(f.ch, ev.step)]
CutAll(fs, ev) == [i \in DOMAIN fs |-> CutFile(fs[i], ev)]
Post(st, ev) == CASE ev.op = "files" -> [fs |-> ev.fs] [] ev.op = "cut" -> [fs |-> CutAll(st.fs, ev)] [] OTHER -> st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C29:crash"}
    [] ev.op = "files" -> {}
    [] ev.op = "cut" ->
         LET want == CutAll(st.fs, ev) IN
         Iff(ev.rc = 0, "C29:exit_status") \cup
         Iff(ev.new = <<>>, "C29:extra_files") \cup
         UNION {LET a == ev.after[i] f == st.fs[i] n == Lines(want[i].ch) changed == want[i].ch # f.ch IN
                Iff(a.kept = n, IF a.kept = -1 THEN "C29:changed_lines" ELSE IF a.kept < n THEN "C29:lost_steps" ELSE "C29:kept_steps")
                \cup Iff(changed => a.bak = "same", "C29:no_backup")
                \cup Iff(a.bak # "bad", "C29:backup_differs")
                \cup Iff((ev.sim \/ ev.noinpl \/ ~f.listed) => ~a.fresh, "C29:backup_written")
                \cup Iff((ev.noinpl /\ ~ev.sim /\ f.listed) => a.out, "C29:printed")
                : i \in DOMAIN ev.after}
    [] OTHER -> {"C29:unknown"}
====
