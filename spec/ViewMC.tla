---- MODULE ViewMC ----
(* All short histories of viewer calls: files and processes accounted for. *)
EXTENDS View, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, code
vars == <<st, hist, code>>
Vs == {"view_xcrysden", "view_vmd_axsf", "view_vmd_xyz", "view_jmol", "view_avogadro", "custom"}
Init == st = InitSt(<<>>) /\ hist = <<>> /\ code = 0
Call == [op : {"view"}, v : Vs, traj : BOOLEAN, keep : BOOLEAN, bg : BOOLEAN, fail : BOOLEAN, disp : BOOLEAN, nosym : BOOLEAN, sfile : {"", "s"}, lfile : {"", "l"}]
Key(e) == (IF e.op = "done" THEN 5 ELSE Len(e.v) * 3 + (IF e.traj THEN 7 ELSE 0) + (IF e.keep THEN 17 ELSE 0) + (IF e.bg THEN 37 ELSE 0) + (IF e.fail THEN 71 ELSE 0) + (IF e.disp THEN 101 ELSE 0) + (IF e.nosym THEN 211 ELSE 0) + (IF e.sfile = "" THEN 307 ELSE 0) + (IF e.lfile = "" THEN 401 ELSE 0))
\* names of the files as they appear: two per kept call
Names(e) == CHOOSE S \in SUBSET (st.files \cup Named(e) \cup {"t" \o ToString(2 * st.calls + 1), "t" \o ToString(2 * st.calls + 2)}) : LeftOk(st, e, S)
Seq2(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
Next == /\ Len(hist) < Depth
        /\ \/ \E e \in Call : (e.fail => ~e.nosym /\ ~e.disp) /\ (e.sfile # "" => ~e.nosym) /\ (hist # <<>> => ~e.nosym /\ ~e.disp) /\ hist' = Append(hist, e) /\ st' = Post(st, e @@ [left |-> Seq2(Names(e))])
           \/ st.run # {} /\ hist' = Append(hist, [op |-> "done"]) /\ st' = Post(st, [op |-> "done"])
        /\ code' = (code * 31 + Key(hist'[Len(hist')])) % 7919
Spec == Init /\ [][Next]_vars
Laws == /\ (\A i \in DOMAIN hist : hist[i].op = "view" => (~Keep(hist[i]) /\ ~hist[i].fail) \/ Refused(hist[i])) => st.files = {}
        /\ Cardinality(st.files) <= 2 * Cardinality({i \in DOMAIN hist : hist[i].op = "view" /\ ~Refused(hist[i]) /\ (Keep(hist[i]) \/ hist[i].fail)})
        /\ Cardinality(st.run) <= Cardinality({i \in DOMAIN hist : hist[i].op = "view" /\ hist[i].bg})
        /\ (\A i \in DOMAIN hist : hist[i].op = "view" => ~hist[i].bg) => st.run = {}
        /\ \A i \in DOMAIN hist : hist[i].op = "view" /\ hist[i].bg => Keep(hist[i])
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson(hist))
====
