---- MODULE CutMC ----
(* Runs with every print interval and start step, cut once or twice at every step, also steps which
   are not in a file and simulated cuts. *)
EXTENDS Cut, Json
CONSTANTS MaxStep, Starts, Ints
VARIABLES fs, cuts, orig
vars == <<fs, cuts, orig>>
Run(start, n, iv, hdr) == (IF hdr THEN <<[s |-> 0 - 1, n |-> 1]>> ELSE <<>>) \o [k \in 1..n |-> [s |-> start + (k - 1) * iv, n |-> 2]]
Init == /\ \E st \in Starts, iv \in Ints, n \in {3, 12}, h \in BOOLEAN :
             fs = <<[name |-> "A", listed |-> TRUE, ch |-> Run(st, n, 1, h)], [name |-> "B", listed |-> TRUE, ch |-> Run(st, n, iv, h)], [name |-> "C", listed |-> FALSE, ch |-> Run(st, n, 1, FALSE)]>>
        /\ cuts = <<>> /\ orig = fs
Next == /\ Len(cuts) < 2
        /\ \E s \in 0..MaxStep, sim \in BOOLEAN :
             LET ev == [step |-> s, sim |-> sim, noinpl |-> FALSE] IN
             (sim => s = MaxStep \div 2) /\ fs' = CutAll(fs, ev) /\ cuts' = Append(cuts, ev)
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
Real == {i \in DOMAIN cuts : ~cuts[i].sim}
MinCut == CHOOSE s \in {cuts[i].step : i \in Real} : \A i \in Real : s <= cuts[i].step
\* in the end exactly the steps before the smallest cut are left, in order, and all of them
Exact == \A i \in DOMAIN fs : fs[i].ch = IF Real = {} \/ ~fs[i].listed THEN orig[i].ch ELSE SelectSeq(orig[i].ch, LAMBDA c : c.s < MinCut)
Emit == cuts # <<>> => PrintT("SC " \o ToJson([start |-> fs[3].ch[1].s, n |-> Len(fs[3].ch), iv |-> LET b == orig[2].ch IN b[Len(b)].s - b[Len(b) - 1].s, hdr |-> Len(orig[1].ch) > Len(fs[3].ch), cuts |-> [k \in DOMAIN cuts |-> [step |-> cuts[k].step, sim |-> cuts[k].sim]]]))
====
