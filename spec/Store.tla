---- MODULE Store ----
(* Files holding saved objects (C14).  st.files : file name -> [kind, ents] where an
   HDF5 file maps key paths (sequences of names) to encoded values and a pickle
   file holds one object image.  Encoded values carry kind, type, shape, bytes. *)
EXTENDS Tree
InitSt(hdr) == [files |-> <<>>]        \* sequence of [fn, kind, ents]; ents sequence of [k, v]
Iff(c, s) == IF c THEN {} ELSE {s}
Has(st, fn) == \E i \in DOMAIN st.files : st.files[i].fn = fn
Ents(st, fn) == IF Has(st, fn) THEN (CHOOSE f \in Range(st.files) : f.fn = fn).ents ELSE <<>>
Put(st, fn, kind, ents) == [st EXCEPT !.files = SelectSeq(@, LAMBDA f : f.fn # fn) \o <<[fn |-> fn, kind |-> kind, ents |-> ents]>>]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Clash(a, b) == IsPrefix(a, b) \/ IsPrefix(b, a)
\* entries written in order until the first that clashes with an existing one
RECURSIVE Add(_, _)
Add(ents, new) == IF new = <<>> THEN [ents |-> ents, ok |-> TRUE]
   ELSE IF \E i \in DOMAIN ents : Clash(ents[i].k, Head(new).k) THEN [ents |-> ents, ok |-> FALSE]
   ELSE Add(Append(ents, Head(new)), Tail(new))
Start(st, ev) == IF ev.mode = "w" THEN <<>> ELSE Ents(st, ev.fn)
Post(st, ev) ==
  CASE ev.op = "write" -> Put(st, ev.fn, "h5", IF Add(Start(st, ev), ev.dct).ok THEN Add(Start(st, ev), ev.dct).ents
                                               ELSE ev.after)   \* what a refused write left; judged in Bad
    [] ev.op = "dump" -> Put(st, ev.fn, "pk", <<[k |-> <<>>, v |-> ev.obj]>>)
    [] OTHER -> st
Key(k) == "/" \o Join(k, "/")
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C14:crash"}
    [] ev.op = "write" -> LET a == Add(Start(st, ev), ev.dct) IN
         Iff((ev.exc = "") <=> a.ok, IF a.ok THEN "C14:write_fails" ELSE "C14:existing_entry_replaced_silently")
         \cup Iff(a.ok \/ (/\ \A i \in DOMAIN Start(st, ev) : Start(st, ev)[i] \in Range(ev.after)
                            /\ Range(ev.after) \subseteq Range(Start(st, ev)) \cup Range(ev.dct)), "C14:refused_write_damages_file")
    [] ev.op = "read" ->
         Iff(ev.exc = "", "C14:read_fails")
         \cup Iff(ev.exc # "" \/ {e.k : e \in Range(ev.ents)} = {Key(e.k) : e \in Range(Ents(st, ev.fn))}, "C14:keys")
         \cup Iff(ev.exc # "" \/ \A e \in Range(ev.ents), f \in Range(Ents(st, ev.fn)) : e.k = Key(f.k) => e.v = f.v, "C14:values")
    [] ev.op = "dump" -> Iff(ev.exc = "", "C14:dump_fails") \cup Iff(ev.obj = ev.obj2, "C14:dump_changes_object")
    [] ev.op = "load" -> Iff(ev.exc = "", "C14:load_fails")
         \cup Iff(ev.exc # "" \/ ev.obj = Ents(st, ev.fn)[1].v, "C14:object_differs")
         \cup Iff(ev.exc # "" \/ ev.methods, "C14:object_not_usable")
    [] OTHER -> {}
====
