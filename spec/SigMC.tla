---- MODULE SigMC ----
(* All short signals and kernels: laws of smoothing, mirroring and peaks; small shapes for replay. *)
EXTENDS Sig, Json
CONSTANTS MaxLen, MaxKern
VARIABLES v, k, opt
vars == <<v, k, opt>>
Init == v = <<>> /\ k = <<>> /\ opt = [step |-> "sig"]
Grow == opt.step = "sig" /\ Len(v) < MaxLen /\ k = <<>> /\ \E x \in {0, 1, 3} : v' = Append(v, x) /\ UNCHANGED <<k, opt>>
Kern == opt.step = "sig" /\ v # <<>> /\ Len(k) < MaxKern /\ \E x \in {0, 1, 2} : k' = Append(k, x) /\ UNCHANGED <<v, opt>>
Pick == opt.step = "sig" /\ v # <<>> /\ k # <<>> /\ Sum(k) > 0 /\ UNCHANGED <<v, k>> /\
        \E sh \in {"n", "n1", "2n", "n3", "1n2", "2n2"}, e \in {"m", "c"}, w \in {"end", "start"} : opt' = [step |-> "done", sh |-> sh, edge |-> e, where |-> w]
Next == Grow \/ Kern \/ Pick
Spec == Init /\ [][Next]_vars
Const(n, c) == [i \in 1..n |-> c]
Delta(n) == [i \in 1..n |-> IF 2 * i = n + 1 THEN 1 ELSE 0]
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]
Laws == (opt.step = "sig" /\ v # <<>>) =>
  LET n == Len(v) IN
  /\ LET m == Mirror(v) IN m = Rev(m) /\ Len(m) = 2 * n - 1 /\ SubSeq(m, n, 2 * n - 1) = v
  /\ LET P == Peaks(v, <<>>) Q == Peaks(Rev(v), <<>>) IN Len(P) = Len(Q) /\ \A i \in DOMAIN P : Q[Len(P) + 1 - i] = n - 1 - P[i] /\ \A j \in DOMAIN P : i # j => P[i] # P[j] + 1
  /\ Peaks(v, <<MaxOf(v)>>) = <<>>
  /\ k # <<>> => \A e \in {"m", "c"} : LET S == Smooth(v, k, e) IN
       /\ Len(S) = n
       /\ Smooth(Const(n, 2), k, e) = Const(n, 2 * Sum(k))
       /\ \A i \in DOMAIN S : S[i] <= MaxOf(v) * Sum(k) /\ S[i] >= MinS(v) * Sum(k)
       /\ Smooth([i \in DOMAIN v |-> 3 * v[i] + 1], k, e) = [i \in DOMAIN v |-> 3 * S[i] + Sum(k)]
       /\ (Len(k) % 2 = 1 => Smooth(v, Delta(Len(k)), e) = v /\ Smooth(Rev(v), Rev(k), e) = Rev(S))
Emit == opt.step = "done" => PrintT("SC " \o ToJson([v |-> v, k |-> k, o |-> opt]))
====
