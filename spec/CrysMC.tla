---- MODULE CrysMC ----
(* Abstract store: an object is the sequence of original step names it holds plus
   the set of attributes present; every operation of the object algebra is
   explored and its history emitted for replay on the real code. *)
EXTENDS Crys, Json
CONSTANTS Depth, EmitMod
VARIABLES objs, iters, hist, code
vars == <<objs, iters, hist, code>>
\* object: [kind, steps (sequence of <<origin, step>>)]
New(i, kind, n) == [kind |-> kind, steps |-> [k \in 1..n |-> <<i, k>>], orig |-> i]
Seeds == {<<"S", 1>>, <<"T", 1>>, <<"T", 3>>, <<"T", 4>>}
Init == \E a \in Seeds : /\ objs = <<New(1, a[1], a[2])>> /\ iters = <<>>
                         /\ hist = <<[op |-> "new", kind |-> a[1], n |-> a[2]]>> /\ code = a[2]
Add(e, o, c) == objs' = Append(objs, o) /\ hist' = Append(hist, e) /\ iters' = iters /\ code' = (code * 31 + c) % 10007
Opts == {<<>>, <<-2>>, <<1>>, <<5>>}
Steps == {<<>>, <<-1>>, <<2>>, <<-2>>}
H(i) == IF i = <<>> THEN 17 ELSE i[1] + 7
Next == /\ Len(hist) < Depth
        /\ \/ \E a \in {<<"T", 2>>, <<"S", 1>>} : Len(hist) = 1 /\ Add([op |-> "new", kind |-> a[1], n |-> a[2]], New(2, a[1], a[2]), a[2])
           \/ \E i \in DOMAIN objs : objs[i].kind = "T" /\ \E k \in {-4, -1, 0, 1, 3} :
                LET n == Len(objs[i].steps) r == IF k < 0 THEN k + n ELSE k IN
                r >= 0 /\ r < n /\ Add([op |-> "item", i |-> i, k |-> k], [kind |-> "S", steps |-> <<objs[i].steps[r + 1]>>, orig |-> 0], k + 41 + 3 * i)
           \/ \E i \in DOMAIN objs : objs[i].kind = "T" /\ \E a, b \in Opts, c \in Steps :
                Add([op |-> "slice", i |-> i, a |-> a, b |-> b, c |-> c],
                    [kind |-> "T", steps |-> Take(objs[i].steps, SliceIdx(Len(objs[i].steps), a, b, c)), orig |-> 0], H(a) + 23 * H(b) + 5 * H(c) + i)
           \/ \E i \in DOMAIN objs : Add([op |-> "copy", i |-> i], objs[i], 977 + i)
           \/ \E i, j \in DOMAIN objs : objs[i].steps # <<>> /\ objs[j].steps # <<>>
                /\ Add([op |-> "concat", is |-> <<i, j>>], [kind |-> "T", steps |-> objs[i].steps \o objs[j].steps, orig |-> 0], 991 + i + 7 * j)
           \/ \E i \in DOMAIN objs : objs[i].kind = "T" /\ Len(iters) < 2
                /\ iters' = Append(iters, [i |-> i, pos |-> 0]) /\ hist' = Append(hist, [op |-> "iter_start", i |-> i])
                /\ objs' = objs /\ code' = (code * 31 + 1009 + i) % 10007
           \/ \E m \in DOMAIN iters : iters[m].pos <= Len(objs[iters[m].i].steps)
                /\ iters' = [iters EXCEPT ![m].pos = @ + 1] /\ hist' = Append(hist, [op |-> "iter_next", it |-> m])
                /\ objs' = objs /\ code' = (code * 31 + 1013 + m) % 10007
Spec == Init /\ [][Next]_vars
\* a slice is a subsequence (or reversed subsequence) of its source without repetition
NoRepeat(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
SliceSane == \A i \in DOMAIN hist : hist[i].op = "slice" =>
   LET e == hist[i] n == 4 x == SliceIdx(n, e.a, e.b, e.c) IN
   /\ \A k \in DOMAIN x : x[k] >= 0 /\ x[k] < n
   /\ NoRepeat(x)
   /\ \A k \in DOMAIN x : k > 1 => x[k] - x[k-1] = (IF e.c = <<>> THEN 1 ELSE e.c[1])
   \* reversing the step of a full slice reverses it
   /\ (e.a = <<>> /\ e.b = <<>> /\ e.c = <<-1>> => x = <<3, 2, 1, 0>>)
IterSane == \A m \in DOMAIN iters : iters[m].pos <= Len(objs[iters[m].i].steps) + 1
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson([ops |-> hist]))
====
