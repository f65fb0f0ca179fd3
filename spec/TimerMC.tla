---- MODULE TimerMC ----
(* All call sequences up to Depth over Tags; emits each maximal one for replay
   on the real class.  Independent property-level laws as invariants. *)
EXTENDS Timer, SequencesExt, Json
CONSTANTS Tags, Depth
VARIABLES st, hist
vars == <<st, hist>>
Ev(op, tag) == [op |-> op, tag |-> tag, clk |-> 3 * Len(hist) * Len(hist)]
Init == st = InitSt([silent |-> FALSE]) /\ hist = <<>>
Step(e) == st' = Post(st, e) /\ hist' = Append(hist, e)
Next == Len(hist) < Depth /\ \E op \in {"t", "pt"}, tag \in Tags : Step(Ev(op, tag))
Spec == Init /\ [][Next]_vars

\* readings of a tag depend on the calls for that tag alone
RECURSIVE Run(_, _)
Run(s, h) == IF h = <<>> THEN s ELSE Run(Post(s, Head(h)), Tail(h))
Independent == \A tag \in Tags :
   Rd(st, tag) = Rd(Run(InitSt([silent |-> FALSE]), SelectSeq(hist, LAMBDA e : e.tag = tag)), tag)
\* a completed measurement is bounded by two readings taken for it, in order, with no
\* third call of the same tag in between
Measured == \A tag \in Tags : LET r == Rd(st, tag) IN
   /\ Len(r) \in 0..2
   /\ Len(r) = 2 => \E i, j \in DOMAIN hist :
        /\ i < j /\ hist[i].tag = tag /\ hist[j].tag = tag
        /\ hist[i].op = "t" /\ hist[i].clk = r[1] /\ hist[j].clk = r[2]
        /\ \A k \in (i+1)..(j-1) : hist[k].tag # tag
Emit == Len(hist) = Depth => PrintT("SC " \o ToJson([x \in DOMAIN hist |-> <<hist[x].op, hist[x].tag>>]))
====
