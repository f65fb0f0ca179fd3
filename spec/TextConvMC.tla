---- MODULE TextConvMC ----
EXTENDS TextConv, Json
CONSTANTS N, V
VARIABLES ys, mode, orig, absdiff
vars == <<ys, mode, orig, absdiff>>
Ev(y, m) == [ys |-> y, mode |-> m, orig |-> orig, absdiff |-> absdiff, xs |-> [i \in DOMAIN y[1] |-> ToString(i)]]
Init == /\ \E n \in 1..N, q \in 1..2 : ys \in [1..q -> [1..n -> V]]
        /\ mode \in {"last", "next"} /\ orig \in BOOLEAN /\ absdiff \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE SumTo(_, _, _)
SumTo(y, i, n) == IF i > n THEN 0 ELSE Diff(y, "next", i) + SumTo(y, i + 1, n)
\* difference to the last value = sum of the remaining steps; the last row is zero; original values recoverable
Laws == \A q \in DOMAIN ys : \A i \in DOMAIN ys[q] :
   /\ Diff(ys[q], "last", i) = SumTo(ys[q], i, Len(ys[q]))
   /\ Diff(ys[q], mode, Len(ys[q])) = 0
   /\ ys[q][i] + Diff(ys[q], "last", i) = ys[q][Len(ys[q])]
Shape == LET t == Table(Ev(ys, mode)) IN
   \A i \in DOMAIN t : Len(t[i].row) = Len(ys) * (IF orig THEN 2 ELSE 1)
Emit == PrintT("SC " \o ToJson([ys |-> ys, mode |-> mode, orig |-> orig, absdiff |-> absdiff]))
====
