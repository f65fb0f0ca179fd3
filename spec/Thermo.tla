---- MODULE Thermo ----
(* Harmonic thermodynamics, equations of state, Gibbs energies (C40), on exactly solvable systems.
   Oscillators whose quantum is k * kB * T0 * ln 2 at temperatures m * T0 (m divides k): with j = k / m the Boltzmann
   factor is 2^-j, so occupation, energy and heat capacity are rational; free energy and entropy need logarithms of
   2^j - 1 only.  A density of states is a sequence of (k, g).  Numbers in 1/10^6 (micro).
   Vinet equation at eta = 1 - i/10 with (B1 - 1) = (20/3) ln 2: the exponential is 2^i.
   Gibbs energies: polynomials with integer coefficients in cell axes and temperature. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
M == 1000000
LN2 == 693147
LnM1 == <<0, 1098612, 1945910, 2708050, 3433987, 4143135, 4844187, 5541264, 6236370, 6930495>>   \* ln(2^j - 1)
InitSt(hdr) == hdr
Post(st, ev) == st
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Pow(_, _), SumTo(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
\* one oscillator at hf / kT = j ln 2
Occ(j) == (M * 1) \div (Pow(2, j) - 1)
EnT(j) == ((j * M) \div 2) + ((j * M) \div (Pow(2, j) - 1))            \* energy / (kT ln 2)
CvT(j) == LET n == Pow(2, j) - 1 IN ((j * j * M) \div n) + ((j * j * M) \div (n * n))   \* heat capacity / ln^2 2
FrT(j) == LnM1[j] - ((j * LN2) \div 2)                              \* free energy / kT
\* entropy / k = (E - F) / kT
SvT(j) == (j * LN2) - LnM1[j] + ((j * LN2) \div (Pow(2, j) - 1))
\* weights of the points under an integrator
Kept(st) == SelectSeq(st.modes, LAMBDA q : ~st.skip \/ q[1] > 0)
W2(st) == LET q == Kept(st) n == Len(q) IN    \* twice the weight
  [i \in 1..n |-> IF st.rule = "sum" THEN 2 * q[i][2]
                  ELSE q[i][2] * ((IF i > 1 THEN q[i][1] - q[i - 1][1] ELSE 0) + (IF i < n THEN q[i + 1][1] - q[i][1] ELSE 0))]
\* integral of a function of j over the density of states; area > 0: normalised to that area
Integral(st, m, F(_)) ==
  LET q == Kept(st)  w == W2(st)
      s == Sum([i \in DOMAIN q |-> IF w[i] = 0 \/ q[i][1] = 0 THEN 0 ELSE w[i] * F(q[i][1] \div m)])
  IN IF st.area = 0 THEN s \div 2 ELSE (s \div Sum(w)) * st.area
Near(a, b, tol) == Abs(a - b) <= tol
Tol(st) == 40 + 4 * Sum(W2(st)) + 4 * st.area
OscOK(st, ev, F(_)) == Len(ev.out) = Len(ev.temps) /\ \A i \in DOMAIN ev.out : Near(ev.out[i], Integral(st, ev.temps[i], F), Tol(st))
\* T -> 0: zero-point energy (in units of the quantum), no entropy, no heat capacity
ZeroPoint(st) == LET q == Kept(st)  w == W2(st) IN
  LET s == Sum([i \in DOMAIN q |-> w[i] * q[i][1]]) IN IF st.area = 0 THEN (s * (M \div 4)) ELSE ((s * (M \div 4)) \div Sum(w)) * st.area * 2
LowOK(st, ev) == LET z == ZeroPoint(st) IN \A i \in DOMAIN ev.out :
  Near(ev.out[i], IF ev.what \in {"evib", "fvib"} THEN z ELSE 0, Tol(st))
\* Vinet
N(i) == 10 - i
Two(i, x) == IF i >= 0 THEN x * Pow(2, i) ELSE x \div Pow(2, 0 - i)
VinP(i) == Two(i, (30 * i * M) \div (N(i) * N(i)))                                          \* P / B0
VinB(i) == Two(i, ((200 - 10 * N(i)) * M + 10 * i * N(i) * LN2) \div (N(i) * N(i)))          \* B / B0
VinE(i) == M - Two(i, M - i * LN2)                                                       \* (E - E0) / (4 B0 V0 / (B1-1)^2)
VinetOK(ev, F(_)) == Len(ev.out) = Len(ev.at) /\ \A n \in DOMAIN ev.at : Near(ev.out[n], F(ev.at[n]), 300)
\* integer polynomials in one variable
RECURSIVE Fall(_, _)
Fall(n, m) == IF m = 0 THEN 1 ELSE n * Fall(n - 1, m - 1)
Poly(c, x, m) == Sum([k \in DOMAIN c |-> IF k - 1 < m THEN 0 ELSE c[k] * Fall(k - 1, m) * Pow(x, k - 1 - m)])
\* Gibbs: quadratic wells along the axes, moving linearly with the temperature, plus a polynomial of the temperature:
\* F(x, t) = sum_a w_a (x_a - x0_a - s_a t)^2 + c(t);  volume = sum_a q_a x_a;  G = F + p V
\* with one coordinate (cubic cells; several axes in fixed proportion rat) the fit is one of G(V)
Well(st, x, t) == Sum([a \in DOMAIN st.w |-> st.w[a] * Pow(x[a] - st.x0[a] - (st.s[a] * t), 2)]) + Poly(st.c, t, 0)
Vol(st, x) == Sum([a \in DOMAIN st.w |-> st.q[a] * x[a]])
Gibb(st, x, t, p) == Well(st, x, t) + p * Vol(st, x)
\* minimum: 2 w (x - x0 - s t) + p q = 0
Opt(st, t, p) == [a \in DOMAIN st.w |-> st.x0[a] + (st.s[a] * t) - ((p * st.q[a]) \div (2 * st.w[a]))]
Divides(st, p) == \A a \in DOMAIN st.w : (p * st.q[a]) % (2 * st.w[a]) = 0
\* ---- results on the grid (t, p); t = 0 only and p for the enthalpy
GridOK(st, ev) == \A i \in DOMAIN ev.ts : \A j \in DOMAIN ev.ps : \A n \in DOMAIN st.grid :
    ev.out[i][j][n] = Gibb(st, st.grid[n], ev.ts[i], ev.ps[j])
OptOK(st, ev, F(_, _)) == /\ Len(ev.out) = Len(ev.ts)
                          /\ \A i \in DOMAIN ev.ts : Len(ev.out[i]) = Len(ev.ps) /\ \A j \in DOMAIN ev.ps : ev.out[i][j] = F(ev.ts[i], ev.ps[j])
GOpt(st, t, p) == Gibb(st, Opt(st, t, p), t, p)
VOpt(st, t, p) == Vol(st, Opt(st, t, p))
BOpt(st, t, p) == VOpt(st, t, p) * ((2 * st.w[1]) \div (st.q[1] * st.q[1]))
XOpt(st, t, p, a) == IF Len(st.w) = 1 THEN st.rat[a] * Opt(st, t, p)[1] ELSE Opt(st, t, p)[a]
SlopeX(st, a) == IF Len(st.w) = 1 THEN st.rat[a] * st.s[1] ELSE st.s[a]
\* what can't be calculated is None
Missing(st) == (IF Len(st.rat) < 2 THEN {"ax1", "alpha_ax1"} ELSE {}) \cup {"ax2", "alpha_ax2"} \cup (IF Len(st.w) = 2 THEN {"B"} ELSE {})
SlopeV(st) == Sum([a \in DOMAIN st.w |-> st.q[a] * st.s[a]])
\* thermal expansion: alpha x = dx/dT, heat capacity C = -T d2G/dT2
\* dG/dt at the optimum: the explicit dependence only (the envelope): c'(t) + p s q; second derivative c''(t)
CpOpt(st, t, p) == 0 - (t * Poly(st.c, t, 2))
\* sums of calculated arrays: F = Etot + Fvib, Evib = Fvib + T Svib (micro)
AddOK(ev) == Len(ev.sum) = Len(ev.a) /\ Len(ev.a) = Len(ev.b) /\ \A i \in DOMAIN ev.sum : Near(ev.sum[i], ev.a[i] + ev.b[i], 3)
\* the term T Svib added without kB (eV + K), in 1/100
WrongUnit(ev) == Len(ev.ksum) = Len(ev.ka) /\ Len(ev.ka) = Len(ev.kb) /\ \A i \in DOMAIN ev.ksum : Near(ev.ksum[i], ev.ka[i] + ev.kb[i], 3)
\* derivatives of a fit against differences of what it returns
DiffOK(ev) == \A i \in DOMAIN ev.d : Near(ev.hi[i] - ev.lo[i], ev.d[i], ev.tol)
\* external program: what it was given, what comes back
ElkOK(st, ev) == \A i \in DOMAIN ev.v : ev.out[i] = (CASE ev.what = "given_v" -> ev.v[i]
                                                       [] ev.what \in {"given_e", "ev"} -> Poly(st.c, ev.v[i], 0)
                                                       [] ev.what \in {"v", "pv_v"} -> ev.v[i]
                                                       [] ev.what = "pv" -> Poly(st.pc, ev.v[i], 0)
                                                       [] ev.what = "bv_ev" -> ev.v[i] * Poly(st.c, ev.v[i], 2)
                                                       [] ev.what = "bv_pv" -> 0 - (ev.v[i] * Poly(st.pc, ev.v[i], 1)))
ElkMinOK(st, ev) == LET v == ev.v0 IN
   /\ IF ev.method = "ev" THEN Poly(st.c, v, 1) = 0 ELSE Poly(st.pc, v, 0) = 0
   /\ ev.e0 = Poly(st.c, v, 0) /\ ev.p0 = Poly(st.pc, v, 0)
   /\ ev.b0 = (IF ev.method = "ev" THEN v * Poly(st.c, v, 2) ELSE 0 - (v * Poly(st.pc, v, 1)))
\* fictitious masses of thermostats and barostats in kB T / freq^2
MassOf(ev) == CASE ev.what = "particle" -> [i \in 1..ev.nnos |-> IF i = 1 THEN ev.nf * M ELSE M]
                [] ev.what = "barostat_chain" -> [i \in 1..ev.nnos |-> IF i = 1 THEN ev.ndim * ev.ndim * M ELSE M]
                [] ev.what = "w" -> <<(ev.nf + ev.ndim) * M>>
                [] ev.what = "wg" -> <<((ev.nf + ev.ndim) * M) \div ev.ndim>>
MassOK(ev) == LET m == MassOf(ev) IN Len(ev.out) = Len(m) /\ \A i \in DOMAIN m : Near(ev.out[i], m[i], 30 + m[i] \div 50000)
\* Debye function for small x = 1/n: 1/x - 3/8 + x/20
Deb(n) == (n * M) - ((3 * M) \div 8) + (M \div (20 * n))
Clause(ok, s) == IF ok THEN {} ELSE {"C40:" \o s}

Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C40:crash"}
  ELSE IF ev.op = "reject" THEN Clause(ev.got # "", "accepted_" \o ev.how)
  ELSE IF ev.exc # "" THEN {"C40:" \o ev.op \o "_" \o ev.what \o "_raises_" \o ev.exc}
  ELSE CASE ev.op = "osc" -> Clause(CASE ev.what = "evib" -> OscOK(st, ev, EnT) [] ev.what = "fvib" -> OscOK(st, ev, FrT)
                                      [] ev.what = "svib" -> OscOK(st, ev, SvT) [] ev.what = "cv" -> OscOK(st, ev, CvT), "oscillators_" \o ev.what)
         [] ev.op = "low" -> Clause(LowOK(st, ev), "zero_temperature_" \o ev.what)
         [] ev.op = "vinet" -> Clause(CASE ev.what = "pressure" -> VinetOK(ev, VinP) [] ev.what = "bulkmod" -> VinetOK(ev, VinB) [] ev.what = "energy" -> VinetOK(ev, VinE), "vinet_" \o ev.what)
         [] ev.op = "param" -> Clause(Near(ev.got, ev.want, 300), "fitted_parameter_" \o ev.what)
         [] ev.op = "grid" -> Clause(GridOK(st, ev), "energy_on_grid_" \o ev.what)
         [] ev.op = "opt" -> Clause(CASE ev.what = "G" -> OptOK(st, ev, LAMBDA t, p : GOpt(st, t, p))
                                      [] ev.what = "V" -> OptOK(st, ev, LAMBDA t, p : VOpt(st, t, p))
                                      [] ev.what = "x1" -> OptOK(st, ev, LAMBDA t, p : XOpt(st, t, p, 1))
                                      [] ev.what = "x2" -> OptOK(st, ev, LAMBDA t, p : XOpt(st, t, p, 2))
                                      [] ev.what = "B" -> OptOK(st, ev, LAMBDA t, p : BOpt(st, t, p))
                                      [] ev.what = "dV" -> OptOK(st, ev, LAMBDA t, p : SlopeV(st))
                                      [] ev.what = "dx1" -> OptOK(st, ev, LAMBDA t, p : SlopeX(st, 1))
                                      [] ev.what = "dx2" -> OptOK(st, ev, LAMBDA t, p : SlopeX(st, 2))
                                      [] ev.what = "Cp" -> OptOK(st, ev, LAMBDA t, p : CpOpt(st, t, p)), ev.how \o "_optimum_" \o ev.what)
         [] ev.op = "missing" -> Clause({ev.keys[k] : k \in DOMAIN ev.keys} = (IF ev.what = "G" THEN Missing(st) ELSE Missing(st) \ {"alpha_ax1", "alpha_ax2"}), "missing_results_" \o ev.what)
         [] ev.op = "add" -> Clause(AddOK(ev), IF ev.what = "Evib" /\ WrongUnit(ev) THEN "entropy_term_in_K_added_to_eV" ELSE "sum_" \o ev.what)
         [] ev.op = "same" -> Clause(ev.a = ev.b, "differs_" \o ev.what)
         [] ev.op = "diff" -> Clause(DiffOK(ev), "derivative_" \o ev.what)
         [] ev.op = "elk" -> Clause(ElkOK(st, ev), "external_fit_" \o ev.what)
         [] ev.op = "elkmin" -> Clause(ElkMinOK(st, ev), "external_fit_minimum_" \o ev.what)
         [] ev.op = "einstein" -> Clause(Len(ev.out) = Len(ev.j) /\ \A i \in DOMAIN ev.j : Near(ev.out[i], Occ(ev.j[i]), ev.tol), "einstein_" \o ev.what)
         [] ev.op = "mass" -> Clause(MassOK(ev), "fictitious_mass_" \o ev.what)
         [] ev.op = "debye" -> Clause(Len(ev.out) = Len(ev.n) /\ \A i \in DOMAIN ev.n : Near(ev.out[i], Deb(ev.n[i]), 2000), "debye_" \o ev.what)
         [] OTHER -> {"C40:unknown_event"}
====
