---- MODULE BackupMC ----
EXTENDS Backup, Json
CONSTANTS Depth, EmitMod
VARIABLES st, hist, code
vars == <<st, hist, code>>
E(op, p, c, t, pre) == [op |-> op, p |-> p, c |-> c, t |-> t, prefix |-> pre]
Events == << E("write", <<"f">>, "one", <<>>, "."), E("write", <<"f">>, "two", <<>>, "."),
             E("backup", <<"f">>, "", <<>>, "."), E("rm", <<"f.0">>, "", <<>>, "."), E("rm", <<"f.1">>, "", <<>>, "."),
             E("mkdir", <<"d">>, "", <<>>, "."), E("write", <<"d", "x">>, "in d", <<>>, "."),
             E("backup", <<"d">>, "", <<>>, "."), E("mkdir", <<"f.1">>, "", <<>>, "."),
             E("link", <<"l">>, "", <<"f">>, "."), E("backup", <<"l">>, "", <<>>, "."),
             E("write", <<"d.0">>, "a file", <<>>, "."), E("backup", <<"f">>, "", <<>>, "_") >>
Ok(e) == CASE e.op = "write" -> (Len(e.p) = 1 \/ Ex(st, Parent(e.p))) /\ (\A x \in At(st, e.p) : x.k = "f" /\ x.c # e.c)
           [] e.op \in {"mkdir", "link"} -> ~Ex(st, e.p)
           [] e.op = "rm" -> Ex(st, e.p)
           [] OTHER -> TRUE
Init == st = {} /\ hist = <<>> /\ code = 0
Next == /\ Len(hist) < Depth
        /\ \E i \in DOMAIN Events : Ok(Events[i]) /\ st' = Post(st, Events[i]) /\ hist' = Append(hist, i)
                                     /\ code' = (code * 17 + i) % 1009
Spec == Init /\ [][Next]_vars
Tree == \A a, b \in st : (a.p = b.p => a = b) /\ (Len(a.p) > 1 => Ex(st, Parent(a.p)))
Content(s, p) == {[e EXCEPT !.p = SubSeq(e.p, Len(p) + 1, Len(e.p))] : e \in Sub(s, p)}
BackupLaw == [][ LET e == Events[hist'[Len(hist')]] IN e.op = "backup" =>
   IF ~Exists(st, e.p) THEN st' = st
   ELSE /\ st \subseteq st'
        /\ LET tops == {x.p[1] : x \in st'} \ {x.p[1] : x \in st} IN
           /\ Cardinality(tops) = 1
           /\ \A t \in tops : Content(st', <<t>>) = Content(st, Resolve(st, e.p, 5))
           /\ \A x \in st' \ st : x.p[1] \in tops ]_vars
Emit == (Len(hist) = Depth /\ code % EmitMod = 0 /\ \E i \in DOMAIN hist : Events[hist[i]].op = "backup")
        => PrintT("SC " \o ToJson([i \in DOMAIN hist |-> Events[hist[i]]]))
====
