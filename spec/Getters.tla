---- MODULE Getters ----
(* Lazy attributes (C08).  hdr.g: attribute -> [kind |-> "const" | "empty" | "dep" | "missing",
   v |-> integer, deps |-> sequence of attributes] (acyclic; hdr.kind = "syn", otherwise the graph is the one
   of StructGraph); hdr.init: attribute -> "" or tagged value.
   kind "alt" (the attributes of Structure and Trajectory): alts is a sequence of [own, need]; the getter finds
   something if for one of them all of own are there already and all of need are there or can be derived; the
   value is always V(1) (the driver encodes "the right value" as 1).
   State: attribute -> tagged value ("none" when empty). *)
EXTENDS StructGraph
Range(s) == {s[i] : i \in DOMAIN s}
InitSt(hdr) == [g |-> IF hdr.kind = "syn" THEN hdr.g ELSE Graph(hdr.kind, hdr.n), vals |-> hdr.init]
IsSet(st, a) == st.vals[a].t # "none"
None == [t |-> "none", v |-> 0]
V(n) == [t |-> "i", v |-> n]
\* the value of attribute a: what is already there, else what its getter gives
RECURSIVE Val(_, _)
RECURSIVE Sum(_, _)
Sum(st, ds) == IF ds = <<>> THEN 0 ELSE Val(st, Head(ds)).v + Sum(st, Tail(ds))
Val(st, a) ==
  IF IsSet(st, a) THEN st.vals[a]
  ELSE LET g == st.g[a] IN
       CASE g.kind = "const" -> V(g.v)
         [] g.kind = "dep" -> IF \A d \in Range(g.deps) : Val(st, d).t # "none" THEN V(g.v + 2 * Sum(st, g.deps)) ELSE None
         [] g.kind = "alt" -> IF \E x \in Range(g.alts) : (\A d \in Range(x.own) : IsSet(st, d)) /\ (\A d \in Range(x.need) : Val(st, d).t # "none") THEN V(1) ELSE None
         [] OTHER -> None
RECURSIVE Needs(_, _)
Needs(st, a) == {a} \cup IF IsSet(st, a) \/ st.g[a].kind \notin {"dep", "alt"} THEN {}
                         ELSE IF st.g[a].kind = "dep" THEN UNION {Needs(st, d) : d \in Range(st.g[a].deps)}
                         ELSE UNION {UNION {Needs(st, d) : d \in Range(x.need)} : x \in Range(st.g[a].alts)}
Attrs(st) == DOMAIN st.g

\* attributes addressed by an event
Acc(ev) == Range(ev.attrs)
Evaluates(ev) == ev.op \in {"try", "check", "assert_set", "return", "set_all", "raw_return", "raw_slice", "lazy"}
Post(st, ev) == IF ev.op = "set" THEN [st EXCEPT !.vals[ev.attrs[1]] = V(ev.v)]
                ELSE [st EXCEPT !.vals = ev.vals]

Iff(c, s) == IF c THEN {} ELSE {s}
\* once an assertion over several attributes fails, the later ones need not have been tried
FirstFail(st, ev) == {i \in DOMAIN ev.attrs : Val(st, ev.attrs[i]).t = "none"}
Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C08:crash"} ELSE
  LET A == Attrs(st)
      all == \A a \in Acc(ev) : Val(st, a).t # "none"
      allnow == \A a \in Acc(ev) : IsSet(st, a)
      reach == UNION {Needs(st, a) : a \in Acc(ev)}
      raises == (ev.op = "assert_set" /\ ~all) \/ (ev.op = "assert" /\ ~allnow)
      must == IF raises THEN {} ELSE IF Evaluates(ev) THEN Acc(ev) ELSE {}
  IN IF ev.op = "set" THEN {}
  ELSE Iff(\A a \in A : IsSet(st, a) => ev.vals[a] = st.vals[a], "C08:set_value_overwritten")
   \cup Iff(\A a \in A : IsSet(st, a) => ev.runs[a] = 0, "C08:getter_run_again")
   \cup Iff(\A a \in A : ev.vals[a].t # "none" /\ ~IsSet(st, a) => ev.vals[a] = Val(st, a), "C08:wrong_value")
   \cup Iff(\A a \in A : ~IsSet(st, a) /\ (a \notin reach \/ ~Evaluates(ev)) => ev.vals[a].t = "none", "C08:unrelated_attribute_set")
   \cup Iff(\A a \in must : ev.vals[a] = Val(st, a), "C08:attribute_not_set")
   \cup Iff((ev.exc # "") = raises, "C08:raises_wrongly")
   \cup Iff(raises => ev.exc = "AssertionError", "C08:wrong_exception")
   \cup (IF ev.exc # "" THEN {} ELSE
         CASE ev.op = "check" -> Iff(ev.res = all, "C08:check_result")
           [] ev.op = "is_set" -> Iff(ev.res = allnow, "C08:is_set_result")
           [] ev.op \in {"return", "raw_return", "lazy"} -> Iff(ev.rv = Val(st, ev.attrs[1]), "C08:returned_value")
           [] OTHER -> {})
====
