---- MODULE UnitsMC ----
(* Two implementations of the unit tables side by side, for every history of constructions: tables
   copied per object (as specified), and tables kept as a pointer to one of the objects' classes.
   Only the first has every object's units independent of the history. *)
EXTENDS Units, Json
CONSTANTS Cls, MaxLen
VARIABLES hist, obj, where
vars == <<hist, obj, where>>
Users == {{}, {[k |-> "length", f |-> "u2"]}, {[k |-> "stress", f |-> "u3"], [k |-> "time", f |-> "u5"]}}
Ops == [op : {"new"}, cls : Cls, u : Users] \cup [op : {"cont"}, i : 1..MaxLen] \cup [op : {"swap"}, cls : Cls]
\* where: which of two runs' files are at the path all objects of a class read
Init == hist = <<>> /\ obj = <<>> /\ where = [c \in Cls |-> "a"]
New(o) == obj' = Append(obj, [cls |-> o.cls, u |-> o.u, units |-> Own(o.cls, o.u), used |-> FALSE, dead |-> FALSE, got |-> ""]) /\ UNCHANGED where
Use(o) == /\ o.i \in DOMAIN obj /\ ~obj[o.i].dead /\ UNCHANGED where
          /\ obj' = [obj EXCEPT ![o.i].used = TRUE, ![o.i].got = IF @ = "" THEN where[obj[o.i].cls] ELSE @]
Swap(o) == /\ \E i \in DOMAIN obj : obj[i].cls = o.cls /\ ~obj[i].dead
           /\ where' = [where EXCEPT ![o.cls] = IF @ = "a" THEN "b" ELSE "a"]
           /\ obj' = [i \in DOMAIN obj |-> IF obj[i].cls = o.cls THEN [obj[i] EXCEPT !.dead = TRUE] ELSE obj[i]]
Next == /\ Len(hist) < MaxLen /\ \E o \in Ops : (CASE o.op = "new" -> New(o) [] o.op = "swap" -> Swap(o) [] OTHER -> Use(o)) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* user units override, everything else is the class default; the same arguments give the same units
Override == \A i \in DOMAIN obj : \A k \in Kinds : obj[i].units[k] = (IF \E u \in obj[i].u : u.k = k THEN (CHOOSE u \in obj[i].u : u.k = k).f ELSE Defaults(obj[i].cls)[k])
Indep == \A i, j \in DOMAIN obj : obj[i].cls = obj[j].cls /\ obj[i].u = obj[j].u => obj[i].units = obj[j].units
\* what is read is what the file contains, whoever read a file of that name before
Reads == \A i \in DOMAIN obj : obj[i].used /\ ~obj[i].dead => obj[i].got = where[obj[i].cls]
Stay == [][\A i \in DOMAIN obj : obj'[i].units = obj[i].units /\ obj'[i].cls = obj[i].cls]_vars
Emit == Len(hist) = MaxLen => PrintT("SC " \o ToJson(hist))
====
