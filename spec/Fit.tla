---- MODULE Fit ----
(* Fits and interpolators (C39).  Data are exact: points are integer vectors, values integers, either those of an
   integer polynomial (hdr.c: coefficients in the order of the powers, hdr.d: degree per dimension, hdr.nd: dimensions)
   or arbitrary (hdr.z at hdr.pts).  A method which can represent the data has to return the polynomial, its derivatives,
   extrema and roots; one which interpolates has to return the data at the points; derivatives have to be those of
   what the fit itself returns.  Fixed-point numbers are in 1/10^6 (micro) or 1/10^3 (milli). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == hdr
Post(st, ev) == st
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Pow(_, _), SumTo(_, _), Prod(_)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Prod(f) == IF f = <<>> THEN 1 ELSE Head(f) * Prod(Tail(f))
\* exponent of dimension j in term k (both from 1): the last dimension runs fastest
Digit(k, j, d, nd) == ((k - 1) \div Pow(d + 1, nd - j)) % (d + 1)
RECURSIVE Fall(_, _)
Fall(n, m) == IF m = 0 THEN 1 ELSE n * Fall(n - 1, m - 1)
\* m-th derivative with respect to dimension j (m = 0: the value)
Eval(c, d, nd, u, j, m) ==
  Sum([k \in DOMAIN c |-> c[k] * Prod([i \in 1..nd |->
      LET p == Digit(k, i, d, nd) IN
      IF i # j THEN Pow(u[i], p) ELSE IF p < m THEN 0 ELSE Fall(p, m) * Pow(u[i], p - m)])])
P(st, u) == Eval(st.c, st.d, st.nd, u, 1, 0)
Vals(st, at, j, m) == [i \in DOMAIN at |-> Eval(st.c, st.d, st.nd, at[i], j, m)]
\* one point given alone: a number, not an array of length one
Shape(ev, n) == IF ev.single THEN <<>> ELSE <<n>>
EvalOK(st, ev) == ev.out = [s |-> Shape(ev, Len(ev.at)), d |-> Vals(st, ev.at, ev.dim, ev.der)]
SupportOK(st, ev) == ev.out = [s |-> Shape(ev, Len(ev.idx)), d |-> [i \in DOMAIN ev.idx |-> st.z[ev.idx[i]]]]
\* stationary point / root inside the bracket; ev.y0 = value looked up
ExtrOK(st, ev) == /\ \A i \in DOMAIN ev.out : ev.out[i] >= ev.lo /\ ev.out[i] <= ev.hi
                  /\ \A j \in 1..st.nd : Eval(st.c, st.d, st.nd, ev.out, j, 1) = 0
RootOK(st, ev) == Len(ev.out) = 1 /\ ev.out[1] >= ev.lo /\ ev.out[1] <= ev.hi /\ P(st, ev.out) = ev.y0
Increasing(z) == \A i \in 1..Len(z) - 1 : z[i] < z[i + 1]
WeakInc(z) == \A i \in 1..Len(z) - 1 : z[i] <= z[i + 1]
Neg(z) == [i \in DOMAIN z |-> 0 - z[i]]
MonoOK(z, out) == /\ (Increasing(z) \/ Increasing(Neg(z))) => out
                  /\ ~(WeakInc(z) \/ WeakInc(Neg(z))) => ~out
\* regularised network: data - fit = r * weight for every point (micro)
ResidOK(st, ev) == /\ Len(ev.f) = Len(st.z) /\ Len(ev.rw) = Len(st.z)
                   /\ \A i \in DOMAIN st.z : Abs((1000000 * st.z[i]) - ev.f[i] - ev.rw[i]) <= ev.tol
\* gradient against the central difference of the fit itself: dd = 2 h df/dx (micro)
GradOK(ev) == /\ ev.shape = ev.want
              /\ Len(ev.dd) = Len(ev.fp) /\ Len(ev.fp) = Len(ev.fm) /\ \A i \in DOMAIN ev.dd : Abs(ev.fp[i] - ev.fm[i] - ev.dd[i]) <= ev.tol
\* free parameter: mean distance (one dimension, all pairs), or the typical spacing
Dist1(pts) == Sum([i \in DOMAIN pts |-> Sum([j \in DOMAIN pts |-> Abs(pts[i][1] - pts[j][1])])])
Edge(pts, k) == LET S == {pts[i][k] : i \in DOMAIN pts} IN (CHOOSE a \in S : \A b \in S : b <= a) - (CHOOSE a \in S : \A b \in S : b >= a)
\* p^n M = product of the n non-zero edges; pn = p^n M in milli
PScipy(pts) == Prod(SelectSeq([k \in 1..Len(pts[1]) |-> Edge(pts, k)], LAMBDA e : e # 0))
POK(st, ev) == IF ev.how = "mean" THEN Abs(ev.pn - 1000 * Dist1(st.pts)) <= 2 ELSE Abs(ev.pn - 1000 * PScipy(st.pts)) <= 2
\* mean squared error: M * err (micro) = sum of squared residuals (milli)
ErrOK(ev) == LET r == ev.res  s == Sum([i \in DOMAIN r |-> r[i] * r[i]])  t == Sum([i \in DOMAIN r |-> Abs(r[i])]) IN Abs(ev.merr - s) <= t + Len(r) + 2 + (s \div 10000)
\* the penalty for a negative parameter: exp(err) >= 1 + err
PenaltyOK(ev) == ev.neg >= ev.pos + 1000000 - 5
MeanOK(ev) == LET n == Len(ev.parts) IN Abs((n * ev.got) - Sum(ev.parts)) <= 2 * n
\* minimum of the grid (micro): nothing else on it is better
OptOK(ev) == Len(ev.pick) = 1 /\ \A i \in DOMAIN ev.errs : ev.errs[ev.pick[1]] <= ev.errs[i] + 2
Close(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 20
Clause(ok, s) == IF ok THEN {} ELSE {"C39:" \o s}

Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C39:crash"}
  ELSE IF ev.exc # "" THEN {"C39:" \o ev.op \o "_" \o ev.how \o "_raises_" \o ev.exc}
  ELSE CASE ev.op = "eval" -> Clause(EvalOK(st, ev), (IF ev.der = 0 THEN "polynomial_not_reproduced_" ELSE "derivative_") \o ev.how)
         [] ev.op = "support" -> Clause(SupportOK(st, ev), "data_not_reproduced_" \o ev.how)
         [] ev.op = "extr" -> Clause(ExtrOK(st, ev), "extremum_" \o ev.how)
         [] ev.op = "root" -> Clause(RootOK(st, ev), "root_" \o ev.how)
         [] ev.op = "mono" -> Clause(MonoOK(st.z, ev.out), "monotonic_" \o ev.how)
         [] ev.op = "resid" -> Clause(ResidOK(st, ev), "regularised_fit_" \o ev.how)
         [] ev.op = "grad" -> Clause(GradOK(ev), "gradient_" \o ev.how)
         [] ev.op = "p" -> Clause(POK(st, ev), "free_parameter_" \o ev.how)
         [] ev.op = "err" -> Clause(ErrOK(ev), "fit_error_" \o ev.how)
         [] ev.op = "penalty" -> Clause(PenaltyOK(ev), "negative_parameter_" \o ev.how)
         [] ev.op = "mean" -> Clause(MeanOK(ev), "cross_validation_" \o ev.how)
         [] ev.op = "count" -> Clause(ev.got = ev.want, "number_of_errors_" \o ev.how)
         [] ev.op = "opt" -> Clause(OptOK(ev), "not_optimal_" \o ev.how)
         [] ev.op = "same" -> Clause(Close(ev.a, ev.b), "differs_" \o ev.how)
         [] ev.op = "kept" -> Clause(ev.a = ev.b, "input_changed_" \o ev.how)
         \* the wrong data, or a fit which isn't one, must not be accepted
         [] ev.op = "reject" -> Clause(ev.got # "", "accepted_" \o ev.how)
         [] ev.op = "smooth" -> Clause(ev.got # "", "inaccurate_accepted_" \o ev.how)
         [] OTHER -> {"C39:unknown_event"}
====
