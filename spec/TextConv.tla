---- MODULE TextConv ----
(* Convergence tables and text conversion helpers (C38). *)
EXTENDS Tree
InitSt(hdr) == 0
Post(st, ev) == st
Abs(x) == IF x < 0 THEN -x ELSE x

\* ys: one sequence per quantity, values scaled to integers
Diff(y, mode, i) == IF mode = "last" THEN y[Len(y)] - y[i] ELSE IF i = Len(y) THEN 0 ELSE y[i+1] - y[i]
TableRow(ev, i) == FlattenS([q \in DOMAIN ev.ys |->
   LET d == Diff(ev.ys[q], ev.mode, i)
       dd == IF ev.absdiff THEN Abs(d) ELSE d
   IN IF ev.orig THEN <<dd, ev.ys[q][i]>> ELSE <<dd>>])
Table(ev) == [i \in DOMAIN ev.xs |-> [x |-> ev.xs[i], row |-> TableRow(ev, i)]]

\* removing the first occurrence of every item in turn
IndexOf(l, x) == CHOOSE i \in DOMAIN l : l[i] = x /\ \A j \in 1..(i-1) : l[j] # x
Drop(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
RECURSIVE PopAll(_, _)
PopAll(l, items) == IF items = <<>> THEN l ELSE PopAll(Drop(l, IndexOf(l, Head(items))), Tail(items))
RECURSIVE CanPop(_, _)
CanPop(l, items) == IF items = <<>> THEN TRUE
                    ELSE Head(items) \in Range(l) /\ CanPop(Drop(l, IndexOf(l, Head(items))), Tail(items))

TrueWords == {".true.", "true", "on", "yes", "1"}
FalseWords == {".false.", "false", "off", "no", "0"}
Iff(c, s) == IF c THEN {} ELSE {s}

\* files as sequences of lines [t : text, e : end "n" | "rn" | ""]; the last write of a name counts
LastWrite(ops, i, fn) == LET w == {j \in 1..(i - 1) : ops[j].op = "write" /\ ops[j].fn = fn}
                         IN IF w = {} THEN [ok |-> FALSE, lines |-> <<>>] ELSE [ok |-> TRUE, lines |-> ops[CHOOSE j \in w : \A m \in w : m <= j].lines]
Universal(lines) == [k \in DOMAIN lines |-> [t |-> lines[k].t, e |-> IF lines[k].e = "" THEN "" ELSE "n"]]
FilesOk(ev) == \A i \in DOMAIN ev.ops :
  LET o == ev.ops[i] r == ev.res[i] w == LastWrite(ev.ops, i, o.fn) IN
  CASE o.op = "write" -> r.exc = ""
    [] ~w.ok -> r.exc = "FileNotFoundError"
    [] OTHER -> r.exc = "" /\ r.lines = (IF o.raw THEN w.lines ELSE Universal(w.lines)) /\ (o.op = "readlines" => r.n = Len(w.lines))
\* paths as sequences of names: an absolute part starts anew, ~ is the home directory, "." and ".." as usual
RECURSIVE Walk(_, _)
Walk(base, names) == IF names = <<>> THEN base
                     ELSE Walk(IF Head(names) = "." THEN base
                               ELSE IF Head(names) = ".." THEN (IF base = <<>> THEN base ELSE SubSeq(base, 1, Len(base) - 1))
                               ELSE Append(base, Head(names)), Tail(names))
RECURSIVE PathOf(_, _, _, _)
PathOf(parts, cwd, home, first) ==
  IF parts = <<>> THEN cwd
  ELSE LET p == Head(parts)
           b == IF p.abs THEN <<>> ELSE IF first /\ p.names # <<>> /\ p.names[1] = "~" THEN home ELSE cwd
           n == IF ~p.abs /\ first /\ p.names # <<>> /\ p.names[1] = "~" THEN Tail(p.names) ELSE p.names
       IN PathOf(Tail(parts), Walk(b, n), home, FALSE)
\* from the last absolute part on
LastAbs(parts) == LET a == {i \in DOMAIN parts : parts[i].abs} IN IF a = {} THEN parts ELSE SubSeq(parts, CHOOSE i \in a : \A j \in a : j <= i, Len(parts))
\* a configuration as a sequence of [sec, key, val] triples; no section is added twice
ConfigSecs(items) == {items[i].sec : i \in DOMAIN items}
ConfigBad(ev) == ConfigSecs(ev.have) \cap ConfigSecs(ev.add) # {}

Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C38:crash"}
    [] ev.op = "table" -> Iff(ev.exc = "" /\ ev.res = Table(ev), "C38:conv_table")
                          \cup Iff(ev.yafter = ev.ys, "C38:conv_table_changes_input")
    [] ev.op = "seq2str" -> Iff(ev.exc = "" /\ ev.res = Join(ev.items, ev.sep), "C38:seq2str")
    [] ev.op = "str2seq" -> Iff(ev.exc = "" /\ ev.res = ev.ints, "C38:str2seq")
    [] ev.op = "toslice" ->
         IF ev.n = 1 THEN Iff(ev.exc = "" /\ ev.res = <<ev.a>>, "C38:toslice")
         ELSE Iff(ev.exc = "" /\ ev.res = <<ev.a, ev.b, IF ev.n = 3 THEN ev.c ELSE "none">>, "C38:toslice")
    [] ev.op = "tobool" ->
         LET want == CASE ev.kind = "b" -> ev.i = 1 [] ev.kind = "i" -> ev.i # 0 [] ev.kind = "s" -> ev.word \in TrueWords [] OTHER -> FALSE
             ok == ev.kind \in {"b", "i"} \/ (ev.kind = "s" /\ ev.word \in TrueWords \cup FalseWords) IN
         IF ok THEN Iff(ev.exc = "" /\ ev.res = want, "C38:tobool") ELSE Iff(ev.exc # "", "C38:tobool_accepts_garbage")
    [] ev.op = "ffloat" -> IF ev.valid THEN Iff(ev.exc = "" /\ ev.res = [neg |-> ev.neg, dig |-> ev.dig, ex |-> ev.ex], "C38:ffloat")
                           ELSE Iff(ev.exc # "", "C38:ffloat_accepts_garbage")
    [] ev.op = "flatten" -> Iff(ev.exc = "" /\ ev.res = Leaves(Node(ev.items)), "C38:flatten")
    [] ev.op = "pop" -> IF CanPop(ev.items, ev.rm) THEN Iff(ev.exc = "" /\ ev.res = PopAll(ev.items, ev.rm), "C38:pop_from_list")
                                                        \cup Iff(ev.after = ev.items, "C38:pop_changes_input")
                        ELSE Iff(ev.exc # "", "C38:pop_missing_accepted")
    [] ev.op = "dict2str" -> Iff(ev.exc = "" /\ ev.res = ConcatStr([i \in DOMAIN ev.ks |-> ev.ks[i] \o ": " \o ToString(ev.vs[i]) \o "\n"]), "C38:dict2str")
    [] ev.op = "str_arr" -> \* values scaled by 8; entries of magnitude <= eps become zero
         Iff(ev.exc = "" /\ ev.res = [r \in DOMAIN ev.rows |-> [c \in DOMAIN ev.rows[r] |->
                IF Abs(ev.rows[r][c]) <= ev.eps THEN 0 ELSE ev.rows[r][c]]], "C38:str_arr")
         \cup Iff(ev.after = ev.rows, "C38:str_arr_changes_input")
    [] ev.op = "fix_eps" ->
         Iff(ev.exc = "" /\ ev.res = [r \in DOMAIN ev.rows |-> [c \in DOMAIN ev.rows[r] |->
                IF Abs(ev.rows[r][c]) <= ev.eps THEN 0 ELSE ev.rows[r][c]]], "C38:fix_eps")
         \cup Iff(ev.after = (IF ev.copy THEN ev.rows ELSE ev.res), "C38:fix_eps_input")
    [] ev.op = "asseq" -> Iff(ev.exc = "" /\ ev.res = (IF ev.isseq THEN ev.items ELSE <<ev.items[1]>>), "C38:asseq")
    [] ev.op = "files" -> Iff(ev.exc = "" /\ FilesOk(ev), "C38:files")
    [] ev.op = "path" -> Iff(ev.exc = "" /\ ev.res = PathOf(LastAbs(ev.parts), ev.cwd, ev.home, TRUE), "C38:fullpath")
    [] ev.op = "config" -> IF ConfigBad(ev) THEN Iff(ev.exc = "DuplicateSectionError", "C38:add_to_config")
                           ELSE Iff(ev.exc = "" /\ ev.same /\ Range(ev.res) = Range(ev.have) \cup Range(ev.add), "C38:add_to_config")
    [] ev.op = "frepr" -> Iff(ev.exc = "" /\ ev.back /\ (ev.kind = "float" \/ ev.res = ev.text), "C38:frepr")
    [] ev.op = "isseq" -> Iff(ev.exc = "" /\ ev.res = (ev.kind \in {"list", "tuple", "array", "dict", "set", "generator"}), "C38:is_seq")
    \* objects made from dictionaries are independent of each other
    [] ev.op = "classes" -> Iff(ev.exc = "" /\ \A i \in DOMAIN ev.made : ev.res[i] = [name |-> ev.made[i].name, items |-> ev.made[i].items], "C38:dict2class")
    [] ev.op = "cond" -> Iff(ev.exc = (IF ev.ok THEN "" ELSE "AssertionError"), "C38:assert_cond")
    [] OTHER -> {"unknown"}
====
