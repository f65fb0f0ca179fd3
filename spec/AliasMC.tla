---- MODULE AliasMC ----
(* Heap model with explicit cells: an object is a set of (attribute -> cell); a
   correct derivation allocates fresh cells, a sharing one does not.  TLC shows
   that the observable law of Alias (in-place change of one object changes no
   other) holds on every history iff no two objects share a cell, i.e. that the
   digest monitor has no blind spot; the histories are emitted for replay. *)
EXTENDS Alias, Json
CONSTANTS Depth, EmitMod
VARIABLES heap, objs, hist, shared, seen, code
vars == <<heap, objs, hist, shared, seen, code>>
Ops == {"copy", "item", "concat1", "concat2", "mean", "scell", "struct2traj", "iter"}
Kind(o) == o.kind
Init == \E k \in {"S", "T"} : /\ objs = <<[kind |-> k, cells |-> {1, 2}]>> /\ heap = <<0, 0>>
        /\ hist = <<[op |-> "make", kind |-> k]>> /\ shared = {} /\ seen = {} /\ code = 0
Dig(o, h) == [c \in o.cells |-> h[c]]
Ok(op, k) == CASE op \in {"item", "mean", "iter"} -> k = "T" [] op = "struct2traj" -> k = "S" [] OTHER -> TRUE
Res(op, k) == CASE op \in {"item", "mean", "iter"} -> "S" [] op \in {"concat1", "concat2", "struct2traj"} -> "T" [] OTHER -> k
Derive == \E op \in Ops, i \in DOMAIN objs, sh \in BOOLEAN : Ok(op, objs[i].kind) /\ Len(objs) < 3 /\
    LET n == Len(heap) fresh == {n + 1, n + 2}
        c == IF sh THEN {n + 1, CHOOSE x \in objs[i].cells : TRUE} ELSE fresh IN
    /\ objs' = Append(objs, [kind |-> Res(op, objs[i].kind), cells |-> c])
    /\ heap' = heap \o <<0, 0>>
    /\ shared' = IF sh THEN shared \cup {<<i, Len(objs) + 1>>} ELSE shared
    /\ hist' = Append(hist, [op |-> "derive", how |-> op, i |-> i])
    /\ seen' = seen
    /\ code' = (code * 7 + i + Cardinality({o \in Ops : o = op}) + 3 * Len(objs)) % 101
Mutate == \E i \in DOMAIN objs :
    LET h == [c \in DOMAIN heap |-> IF c \in objs[i].cells THEN heap[c] + 1 ELSE heap[c]] IN
    /\ heap' = h /\ objs' = objs /\ shared' = shared
    /\ seen' = seen \cup {j \in DOMAIN objs : j # i /\ Dig(objs[j], h) # Dig(objs[j], heap)}
    /\ hist' = Append(hist, [op |-> "mutate", i |-> i]) /\ code' = (code * 7 + 5 + i) % 101
Next == Len(hist) < Depth /\ (Derive \/ Mutate)
Spec == Init /\ [][Next]_vars
\* no false alarm: without sharing the monitor sees nothing
Sound == shared = {} => seen = {}
\* no blind spot: a shared cell is seen once one of the two owners changes
Complete == [][ LET e == hist'[Len(hist')] IN e.op = "mutate" =>
   (\A i, j \in DOMAIN objs : i # j /\ i = e.i /\ objs[i].cells \cap objs[j].cells # {} => j \in seen') ]_vars
Emit == (Len(hist) = Depth /\ shared = {} /\ code % EmitMod = 0 /\ hist[Depth].op = "mutate") => PrintT("SC " \o ToJson(hist))
====
