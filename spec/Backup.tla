---- MODULE Backup ----
(* Numbered backups (C05).  State: a directory tree as a set of entries
   [p |-> path, k |-> "f" | "d" | "l", c |-> content / link target path joined by "/"].
   Link targets are given as paths (sequences) in t. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InitSt(hdr) == {}
At(st, p) == {e \in st : e.p = p}
Ex(st, p) == \E e \in st : e.p = p
The(st, p) == CHOOSE e \in st : e.p = p
Sub(st, p) == {e \in st : IsPre(p, e.p)}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
\* follow links (targets are absolute paths in the tree); <<"?">> if dangling
RECURSIVE Resolve(_, _, _)
Resolve(st, p, n) == IF ~Ex(st, p) \/ n = 0 THEN <<"?">>
                     ELSE LET e == The(st, p) IN IF e.k = "l" THEN Resolve(st, e.t, n - 1) ELSE p
Exists(st, p) == Resolve(st, p, 5) # <<"?">>
CopyOf(st, src, dst) ==   \* content behind src, links inside followed one level
  LET r == Resolve(st, src, 5) IN
  UNION { LET q == dst \o SubSeq(e.p, Len(r) + 1, Len(e.p)) IN
          IF e.k = "l" THEN (LET rr == Resolve(st, e.p, 5) IN
              {[x EXCEPT !.p = q \o SubSeq(x.p, Len(rr) + 1, Len(x.p))] : x \in Sub(st, rr)})
          ELSE {[e EXCEPT !.p = q]} : e \in Sub(st, r) }
Numbered(p, prefix, n) == Append(Parent(p), Name(p) \o prefix \o ToString(n))
DstOf(st, p, prefix) == Numbered(p, prefix, Min({n \in 0..80 : ~Ex(st, Numbered(p, prefix, n))}))

Post(st, ev) ==
  CASE ev.op = "write"  -> (st \ At(st, ev.p)) \cup {[p |-> ev.p, k |-> "f", c |-> ev.c, t |-> <<>>]}
    [] ev.op = "mkdir"  -> st \cup {[p |-> ev.p, k |-> "d", c |-> "", t |-> <<>>]}
    [] ev.op = "link"   -> st \cup {[p |-> ev.p, k |-> "l", c |-> "", t |-> ev.t]}
    [] ev.op = "rm"     -> st \ Sub(st, ev.p)
    [] ev.op = "backup" -> IF Exists(st, ev.p) THEN st \cup CopyOf(st, ev.p, DstOf(st, ev.p, ev.prefix)) ELSE st
    [] OTHER -> st

Obs(ev) == {ev.snap[i] : i \in DOMAIN ev.snap}
Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C05:crash"} ELSE
  LET new == Post(st, ev)
      obs == Obs(ev)
  IN IF ev.op # "backup" THEN (IF obs = new THEN {} ELSE {"C05:setup_mismatch"})
     ELSE IF ~Exists(st, ev.p) THEN (IF obs = st THEN {} ELSE {"C05:backup_of_nothing_creates_something"}) \cup (IF ev.exc = "" THEN {} ELSE {"C05:backup_of_nothing_raises"})
     ELSE (IF ev.exc = "" THEN {} ELSE {"C05:backup_raises_" \o ev.exc})
          \cup (IF st \subseteq obs THEN {} ELSE {"C05:existing_entry_changed"})
          \cup (IF obs \subseteq new THEN {} ELSE {"C05:wrong_or_extra_entry"})
          \cup (IF new \subseteq obs THEN {} ELSE {"C05:incomplete_backup"})
====
