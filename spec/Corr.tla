---- MODULE Corr ----
(* Autocorrelation functions, velocities from coordinates (C32) and the phonon density of states as
   power spectrum of the velocities (C42).  A signal is a sequence of integers, velocities are
   vel[time][atom][direction], coordinates the same.  All laws are stated on lags: a power spectrum
   of length N is fixed by its inverse transform, the circular autocorrelation of length N. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumTo(n, F(_)) == Sum([i \in 1..n |-> F(i)])
\* sum over all time origins of v(t0) v(t0+lag), lag = 0..n-1
Acf(v) == LET n == Len(v) IN [t \in 1..n |-> SumTo(n - t + 1, LAMBDA j : v[j] * v[j + t - 1])]
Zeros(n) == [i \in 1..n |-> 0]
Padded(v, N) == v \o Zeros(N - Len(v))
Circ(v, N) == LET p == Padded(v, N) IN [t \in 1..N |-> SumTo(N, LAMBDA j : p[j] * p[((j + t - 2) % N) + 1])]
Comp(vel, a, k) == [i \in DOMAIN vel |-> vel[i][a][k]]
AddUp(n, S(_)) == LET RECURSIVE R(_) R(i) == IF i = 1 THEN S(1) ELSE LET p == R(i - 1) q == S(i) IN [t \in DOMAIN q |-> p[t] + q[t]] IN R(n)
Natoms(vel) == Len(vel[1])
OverAtoms(vel, m, F(_)) == AddUp(Natoms(vel), LAMBDA a : AddUp(3, LAMBDA k : [t \in DOMAIN F(Comp(vel, a, k)) |-> m[a] * F(Comp(vel, a, k))[t]]))
Vacf(vel, m) == OverAtoms(vel, m, Acf)
\* central differences times 2 dt
Diff2(c) == [i \in 1..(Len(c) - 2) |-> [a \in DOMAIN c[1] |-> [k \in DOMAIN c[1][a] |-> c[i + 2][a][k] - c[i][a][k]]]]
VelTraj(c, endp) == LET d == Diff2(c) IN IF endp THEN <<d[1]>> \o d \o <<d[Len(d)]>> ELSE d
\* Welch window times (M-1)^2
Welch(M) == [n \in 1..M |-> IF M = 1 THEN 1 ELSE (M - 1) * (M - 1) - (2 * (n - 1) - (M - 1)) * (2 * (n - 1) - (M - 1))]
Windowed(vel) == LET w == Welch(Len(vel)) IN [i \in DOMAIN vel |-> [a \in DOMAIN vel[i] |-> [k \in 1..3 |-> w[i] * vel[i][a][k]]]]
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
FullLen(ev) == LET n == Len(ev.vel) IN
  IF ev.method = "vacf" THEN IF ev.mirr THEN 2 * n - 1 ELSE n
  ELSE LET L == n + (n - 1) * ev.npad IN IF ev.tonext THEN Pow2(L, 1) ELSE L
\* fft frequencies times N*dt
Freqs(N) == [k \in 1..N |-> IF k - 1 <= (N - 1) \div 2 THEN k - 1 ELSE k - 1 - N]
Near(a, b, tol) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : a[i] - b[i] <= tol /\ b[i] - a[i] <= tol
InitSt(hdr) == [n |-> 0]
Post(st, ev) == st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C32,C42:crash"}
    [] ev.op = "acorr" -> IF ev.exc # "" THEN {"C32:acorr_fails"} ELSE
         Iff(ev.o = Acf(ev.v), "C32:acorr_method_" \o ToString(ev.method) \o (IF ev.norm THEN "_norm" ELSE "")) \cup Iff(ev.kept, "C32:acorr_changes_input")
    [] ev.op = "vacf" -> IF ev.exc # "" THEN {"C32:vacf_fails"} ELSE
         Iff(ev.o = Vacf(ev.vel, ev.m), "C32:vacf_" \o ev.impl \o ToString(ev.method) \o (IF ev.usem THEN "_mass" ELSE "")) \cup Iff(ev.kept, "C32:vacf_changes_input")
    [] ev.op = "vtraj" ->
         IF ev.exc # "" THEN Iff(Len(ev.c) < 3, "C32:velocity_fails")
         ELSE IF Len(ev.c) < 3 THEN Iff(~ev.endp /\ ev.o = <<>>, "C32:velocity_of_too_few_steps")
         ELSE Iff(ev.o = VelTraj(ev.c, ev.endp), "C32:velocity") \cup Iff(ev.kept, "C32:velocity_changes_input")
    [] ev.op = "pdos" -> IF ev.exc # "" THEN {"C42:pdos_fails_" \o ev.method} ELSE
         LET N == FullLen(ev)
             V == IF ev.window THEN Windowed(ev.vel) ELSE ev.vel
             Q == OverAtoms(V, ev.m, LAMBDA v : Circ(v, N))
             F == [k \in 1..(N \div 2) |-> k - 1] IN
         Iff(ev.full_faxis = Freqs(N), "C42:full_faxis_" \o ev.method) \cup Iff(ev.faxis = F, "C42:faxis_" \o ev.method)
         \cup Iff(ev.split = N \div 2, "C42:split_" \o ev.method)
         \cup (IF ev.method = "vacf" /\ ~ev.mirr THEN {} ELSE Iff(ev.lags = Q, "C42:spectrum_" \o ev.method))
         \cup (IF ev.method = "vacf" THEN Iff(ev.vacf = Vacf(V, ev.m), "C42:vacf") \cup Iff(ev.absok, "C42:modulus") ELSE {})
         \cup Iff(Near(ev.rel, ev.relfull, 2), "C42:half_is_not_the_full_spectrum_" \o ev.method) \cup Iff(ev.area = 1000000, "C42:area_" \o ev.method)
         \cup Iff(ev.short = ev.rel /\ ev.shortf = ev.faxis, "C42:differs_without_full_out_" \o ev.method) \cup Iff(ev.kept, "C42:pdos_changes_input")
    [] ev.op = "fft" -> IF ev.exc # "" THEN {"C42:fails_" \o ev.what} ELSE Iff(ev.o = ev.a, "C42:" \o ev.what)       \* o: inverse transform of the result
    [] ev.op = "freq" -> IF ev.exc # "" THEN {"C42:fails_ezfft"} ELSE Iff(ev.o = [k \in 1..(ev.n \div 2) |-> k - 1], "C42:ezfft_axis")
    [] ev.op = "sample" -> IF ev.exc # "" THEN {"C42:fails_fftsample"} ELSE       \* fmax, df, dt, N as powers of two
         Iff(ev.fmax = 0 - ev.dt - 1, "C42:fftsample_fmax") \cup Iff(ev.df = 0 - ev.dt - ev.n - (IF ev.mirr THEN 1 ELSE 0), "C42:fftsample_df")
    [] ev.op = "normint" -> IF ev.exc # "" THEN {"C42:fails_norm_int"} ELSE       \* out times the weighted sum s of y over the grid, times its spacing
         LET n == Len(ev.y) W(i) == IF i \in {1, n} THEN 1 ELSE IF ev.rule = "trapz" THEN 2 ELSE IF i % 2 = 0 THEN 4 ELSE 2
             S == Sum([i \in 1..n |-> W(i) * ev.y[i]]) IN
         IF S = 0 THEN {} ELSE Iff(ev.s = S /\ ev.o = [i \in 1..n |-> ev.y[i] * ev.area * (IF ev.rule = "trapz" THEN 2 ELSE 3)], "C42:norm_int_" \o ev.rule) \cup Iff(ev.kept, "C42:norm_int_changes_input")
    [] ev.op = "welch" -> Iff(ev.o = Welch(ev.n), "C42:welch")
====
