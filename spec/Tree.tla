---- MODULE Tree ----
(* Nested lists as trees: [k |-> "leaf", v |-> value, c |-> <<>>] or [k |-> "seq", v |-> "", c |-> children] *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Leaf(v) == [k |-> "leaf", v |-> v, c |-> <<>>]
Node(c) == [k |-> "seq", v |-> "", c |-> c]
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))
RECURSIVE Leaves(_)
Leaves(t) == IF t.k = "leaf" THEN <<t.v>> ELSE FlattenS([i \in DOMAIN t.c |-> Leaves(t.c[i])])
RECURSIVE ConcatStr(_)
ConcatStr(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatStr(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
====
