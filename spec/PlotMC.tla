---- MODULE PlotMC ----
(* All short histories over a first plot and its axes; the laws say what a call may not touch. *)
EXTENDS Plot, Json
CONSTANTS Depth, EmitMod
VARIABLES st, old, hist, code
vars == <<st, old, hist, code>>
Init == st = <<>> /\ old = <<>> /\ hist = <<>> /\ code = 0
News == [op : {"new"}, proj : {"2d", "3d"}, n : {1, 2}, size : {<<>>}, clean : {0, 1}]
Plots(k) == {p \in DOMAIN st : st[p].kind = k}
Calls ==
  {e \in News : Len(st) < 2 /\ (e.clean = 1 => e.proj = "3d")}
  \cup (IF Len(st) < 2 THEN {[op |-> "grid"]} ELSE {})
  \cup UNION {LET A == DOMAIN st[p].axes IN
        (IF st[p].proj = "2d" /\ Cardinality(A) < 3 THEN {[op |-> "twin", p |-> p]} ELSE {})
        \cup (IF st[p].proj = "2d" THEN
                [op : {"line"}, p : {p}, a : A, label : {"", "l" \o ToString(Len(hist))}, bar : BOOLEAN]
                \cup [op : {"legend"}, p : {p}, a : A, names : {<<>>} \cup {<<i>> : i \in A} \cup {<<i, j>> : i \in A, j \in A}]
                \cup [op : {"collect"}, p : {p}, names : {<<i>> : i \in A} \cup {<<i, j>> : i \in A, j \in A}]
                \cup [op : {"color"}, p : {p}, a : A, axis : {"x", "y"}, color : {1, 2}, spine : {"", "left", "right"}, hide : {"", "top"}]
              ELSE [op : {"lines3"}, p : {p}, x : {<<<<1, 2>>>>}, y : {<<3, 4>>}, z : {<<<<5, 6>>>>, <<<<5, 6>>, <<7, 8>>>>}]) : p \in Plots("plot")}
  \cup [op : {"axis"}, p : Plots("grid"), loc : {"left", "top"}, label : {"lab"}, off : {0, 40}, ws : {0, 100}, ticks : {<<>>, <<1, 3>>}, sharex : BOOLEAN, sharey : BOOLEAN]
Word(e) == Len(e.op) * 7 + Cardinality(DOMAIN e) + (IF "p" \in DOMAIN e THEN 3 * e.p ELSE 0) + (IF "a" \in DOMAIN e THEN 5 * e.a ELSE 0)
           + (IF "label" \in DOMAIN e THEN 11 * Len(e.label) ELSE 0) + (IF "names" \in DOMAIN e THEN 13 * Len(e.names) + (IF e.names # <<>> THEN 17 * e.names[1] ELSE 0) ELSE 0)
           + (IF "spine" \in DOMAIN e THEN 19 * Len(e.spine) + 23 * Len(e.hide) + 29 * e.color ELSE 0) + (IF "loc" \in DOMAIN e THEN 31 * Len(e.loc) + e.off + e.ws + Len(e.ticks) + (IF e.sharex THEN 37 ELSE 0) + (IF e.sharey THEN 41 ELSE 0) ELSE 0)
           + (IF "bar" \in DOMAIN e /\ e.bar THEN 43 ELSE 0) + (IF "proj" \in DOMAIN e THEN (IF e.proj = "3d" THEN 47 ELSE 0) + 53 * e.clean + 59 * e.n ELSE 0)
Next == /\ Len(hist) < Depth
        /\ \E e \in Calls : hist' = Append(hist, e) /\ st' = Post(st, e) /\ old' = st /\ code' = (code * 37 + Word(e)) % 9973
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
Laws == hist # <<>> =>
  /\ Len(st) >= Len(old)
  \* other plots, and other axes of the same plot, are never touched
  /\ \A i \in DOMAIN old : ("p" \notin DOMAIN Last \/ Last.p # i) => st[i] = old[i]
  /\ ("a" \in DOMAIN Last) => \A j \in DOMAIN old[Last.p].axes : j # Last.a => st[Last.p].axes[j] = old[Last.p].axes[j]
  \* drawing never changes an existing legend, a legend never the lines
  /\ Last.op = "legend" => \A j \in DOMAIN st[Last.p].axes : st[Last.p].axes[j].lines = old[Last.p].axes[j].lines /\ Len(st[Last.p].axes[j].leg) <= 4 * Depth
  /\ Last.op = "line" => st[Last.p].axes[Last.a].leg = old[Last.p].axes[Last.a].leg
  /\ Last.op = "collect" => st = old
  \* a repeated legend call is the same as one
  /\ Last.op = "legend" => Post(st, Last) = st
  /\ Last.op = "color" => Post(st, Last) = st
  /\ \A i \in DOMAIN st : st[i].kind = "grid" => st[i].pos.left < st[i].pos.right /\ Len(st[i].extra) = Cardinality({k \in DOMAIN hist : hist[k].op = "axis" /\ hist[k].p = i})
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson(hist))
====
