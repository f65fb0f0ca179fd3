---- MODULE CorrMC ----
(* All short signals and their autocorrelation laws; all small shapes and option sets for replay. *)
EXTENDS Corr, Json
CONSTANTS MaxLen, Vals
VARIABLES v, opt
vars == <<v, opt>>
Init == v = <<>> /\ opt = [step |-> "sig"]
Grow == opt.step = "sig" /\ Len(v) < MaxLen /\ \E x \in Vals : v' = Append(v, x) /\ UNCHANGED opt
Pick == opt.step = "sig" /\ v # <<>> /\ UNCHANGED v /\ \E na \in 1..2, ms \in BOOLEAN, np \in 0..2, tn \in BOOLEAN, w \in BOOLEAN :
          opt' = [step |-> "done", natoms |-> na, usem |-> ms, npad |-> np, tonext |-> tn, window |-> w]
Next == Grow \/ Pick
Spec == Init /\ [][Next]_vars
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Alt(n) == [i \in 1..n |-> IF i % 2 = 1 THEN 1 ELSE 0 - 1]
Laws == (opt.step = "sig" /\ v # <<>>) =>
  LET A == Acf(v) n == Len(v) C == Circ(v, 2 * n) D == Circ(v, 2 * n - 1) IN
  /\ \A t \in 1..n : A[t] <= A[1] /\ 0 - A[1] <= A[t]
  /\ Acf(Rev(v)) = A
  \* zero padded circular autocorrelation is the linear one, and even
  /\ \A t \in 1..n : C[t] = A[t] /\ D[t] = A[t]
  /\ C[n + 1] = 0 /\ \A t \in 2..n : C[2 * n + 2 - t] = A[t] /\ D[2 * n + 1 - t] = A[t]
  \* spectrum at zero and at the highest frequency
  /\ A[1] + 2 * Sum(Tail(A)) = Sum(v) * Sum(v)
  /\ LET s == SumTo(n, LAMBDA i : v[i] * Alt(n)[i]) IN A[1] + 2 * (SumTo(n, LAMBDA i : A[i] * Alt(n)[i]) - A[1]) = s * s
  \* mass weighted sum over atoms and directions
  /\ LET vel == [i \in 1..n |-> <<<<v[i], 1, 0>>, <<0 - v[i], v[i], 2>>>>] one == [i \in 1..n |-> 1] two == [i \in 1..n |-> 2] IN
     Vacf(vel, <<3, 5>>) = [t \in 1..n |-> 3 * (A[t] + Acf(one)[t]) + 5 * (2 * A[t] + Acf(two)[t])]
  \* welch window is symmetric and vanishes at the ends
  /\ LET w == Welch(n) IN w = Rev(w) /\ (n > 1 => w[1] = 0)
  \* constant velocity
  /\ n >= 3 => LET c == [i \in 1..n |-> <<<<2 * i, 0 - i, v[1]>>>>] IN \A i \in 1..n : VelTraj(c, TRUE)[i] = <<<<4, 0 - 2, 0>>>>
Emit == opt.step = "done" => PrintT("SC " \o ToJson([v |-> v, o |-> opt]))
====
