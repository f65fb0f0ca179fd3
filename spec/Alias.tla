---- MODULE Alias ----
(* Ownership of data (C13).  A heap of objects (structures, trajectories, arrays,
   lists); each has a content digest, a sequence of [attribute, digest] pairs.
   Deriving an object or calling a function leaves every existing digest as it
   is; an in-place change of one object changes the digest of that object only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(hdr) == [digs |-> <<>>]
Post(st, ev) == [st EXCEPT !.digs = ev.digs]
Iff(c, s) == IF c THEN {} ELSE {s}
\* every event carries the digests of all objects after it (new objects at the end)
Unchanged(st, ev, i) == ev.digs[i] = st.digs[i]
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C13:crash"}
    [] ev.op = "make" -> {}
    [] ev.op = "derive" -> Iff(\A i \in DOMAIN st.digs : Unchanged(st, ev, i), "C13:deriving_changes_source")
                      \cup Iff(ev.exc = "", "C13:derive_fails")
    [] ev.op = "mutate" -> Iff(\A i \in DOMAIN st.digs : i # ev.i => Unchanged(st, ev, i), "C13:shared_data")
                      \cup Iff(ev.digs[ev.i] # st.digs[ev.i] \/ ev.what = <<>>, "C13:change_without_effect")
    [] ev.op = "call" -> Iff(\A i \in DOMAIN st.digs : Unchanged(st, ev, i), "C13:argument_modified")
    [] OTHER -> {}
====
