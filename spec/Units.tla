---- MODULE Units ----
(* Parser objects and their units (C28).  A history of constructions and uses of parser objects of
   all classes, on several files, with and without user-given units; swap: the files of a class' runs change
   places (dir is the run, whatever its path), its older objects are not used any more.  Factors are named, not
   computed: the conversion from the unit a program prints to the library's (eV, Ang, fs, GPa). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
Kinds == {"length", "energy", "stress", "forces", "temperature", "velocity", "time"}
One == [k \in Kinds |-> "1"]
Pw == [One EXCEPT !["energy"] = "Ry", !["length"] = "Bohr", !["forces"] = "Ry/Bohr", !["stress"] = "0.1"]
Cpmd == [One EXCEPT !["energy"] = "Ha", !["length"] = "Bohr", !["forces"] = "Ha/Bohr", !["stress"] = "0.1"]
Cp2k == [One EXCEPT !["energy"] = "Ha", !["forces"] = "Ha/Bohr"]
Cp2kMD == [Cp2k EXCEPT !["stress"] = "1e-4", !["velocity"] = "Bohr/thart"]
Lmp == [One EXCEPT !["stress"] = "1e-4", !["velocity"] = "1e-3", !["time"] = "1e3"]
Defaults(cls) ==
  CASE cls = "pwscf" -> Pw
    [] cls \in {"pwmd", "pwvcmd"} -> [Pw EXCEPT !["time"] = "tryd"]
    [] cls = "cpmdscf" -> Cpmd
    [] cls = "cpmdmd" -> [Cpmd EXCEPT !["time"] = "thart", !["velocity"] = "Bohr/thart"]
    [] cls = "cp2kscf" -> Cp2k
    [] cls \in {"cp2kmd", "cp2krelax", "cp2kdcd"} -> Cp2kMD
    [] cls \in {"lmp", "lmpdcd"} -> Lmp
    [] OTHER -> One            \* cif, pdb
\* user : set of [k, f]
Own(cls, user) == [k \in Kinds |-> IF \E u \in user : u.k = k THEN (CHOOSE u \in user : u.k = k).f ELSE Defaults(cls)[k]]
Known(user) == \A u \in user : u.k \in Kinds
KindOf(a) == CASE a \in {"coords", "cell", "cryst_const"} -> "length" [] a \in {"etot", "ekin"} -> "energy" [] a = "stress" -> "stress"
               [] a = "forces" -> "forces" [] a = "velocity" -> "velocity" [] a = "timestep" -> "time" [] a = "temperature" -> "temperature" [] OTHER -> ""
Fac(cls, user, a) == IF KindOf(a) = "" THEN "1" ELSE Own(cls, user)[KindOf(a)]
SetOf(s) == {s[i] : i \in DOMAIN s}
InitSt(hdr) == [inst |-> <<>>, solo |-> <<>>, defs |-> ""]
Key(ev) == [cls |-> ev.cls, dir |-> ev.dir, user |-> SetOf(ev.user)]
Solo(st, k) == LET q == SelectSeq(st.solo, LAMBDA s : s.k = k) IN IF q = <<>> THEN <<>> ELSE <<q[1]>>
Post(st, ev) ==
  CASE ev.op = "solo" -> [st EXCEPT !.solo = Append(@, [k |-> Key(ev), dig |-> ev.dig, exc |-> ev.exc])]
    [] ev.op = "defs" -> [st EXCEPT !.defs = ev.d]
    [] ev.op = "new" -> IF ev.exc = "" THEN [st EXCEPT !.inst = Append(@, Key(ev))] ELSE st
    [] OTHER -> st
\* all objects' units after every operation
Objs(st, ev) == UNION {Iff([k \in Kinds |-> ev.units[i][k]] = Own(st.inst[i].cls, st.inst[i].user), "C28:units") : i \in DOMAIN ev.units} \cup Iff(Len(ev.units) = Len(st.inst), "C28:objects")
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C28:crash"}
    [] ev.op \in {"solo", "defs"} -> {}
    [] ev.op = "new" -> IF ~Known(SetOf(ev.user)) THEN Iff(ev.exc # "", "C28:unknown_unit_accepted")
                        ELSE IF ev.exc # "" THEN {"C28:new_fails"} ELSE Objs(Post(st, ev), ev) \cup Iff(ev.defs = st.defs, "C28:class_defaults") \cup Iff(ev.kept, "C28:user_dict_changed")
    [] ev.op = "cont" -> LET k == st.inst[ev.i] s == Solo(st, k) IN
         Objs(st, ev) \cup Iff(ev.defs = st.defs, "C28:class_defaults") \cup
         (IF ev.exc # "" THEN {"C28:cont_fails"}
          ELSE UNION {Iff(ev.r[j].f \in {Fac(k.cls, k.user, ev.r[j].a), "none"}, "C28:factor_" \o ev.r[j].a) : j \in DOMAIN ev.r} \cup Iff(s # <<>> /\ s[1].dig = ev.dig, "C28:history"))
    [] ev.op = "get" -> LET k == st.inst[ev.i] IN Objs(st, ev) \cup Iff(ev.defs = st.defs, "C28:class_defaults") \cup Iff(ev.dig = ev.ref, "C28:getter_history")
    [] ev.op = "mut" -> Objs(st, ev)
    [] ev.op = "swap" -> Objs(st, ev) \cup Iff(ev.defs = st.defs, "C28:class_defaults")
    [] OTHER -> {"C28:unknown"}
====
