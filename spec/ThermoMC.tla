---- MODULE ThermoMC ----
(* Laws of the exact values: thermodynamic relations between the oscillator functions at T and 2T (concavity of the free
   energy with slope -S, energy differences bounded by heat capacities), their limits, the Vinet equation (pressure is the
   slope of the energy, bulk modulus that of the pressure), the Gibbs energy (minimum, envelope: dG/dp = V). *)
EXTENDS Thermo, Json
CONSTANTS MaxG, MaxW, EmitMod
VARIABLES kind, modes, rule, area, skip, w, x0, s, q, c, pc
vars == <<kind, modes, rule, area, skip, w, x0, s, q, c, pc>>
Ks == <<0, 4, 8>>
None == /\ w = <<>> /\ x0 = <<>> /\ s = <<>> /\ q = <<>> /\ c = <<>>
Init == \/ kind = "osc" /\ modes = <<>> /\ rule \in {"sum", "trapz"} /\ area \in (IF rule = "sum" THEN {0} ELSE {0, 3}) /\ skip \in BOOLEAN /\ None /\ pc = "modes"
        \/ kind = "gibbs" /\ modes = <<>> /\ rule = "" /\ area = 0 /\ skip = FALSE /\ None /\ pc = "axes"
        \/ kind = "law" /\ modes \in {<<<<k, 1>>>> : k \in {2, 4, 6, 8, 10}} /\ rule = "sum" /\ area = 0 /\ skip = FALSE /\ None /\ pc = "done"
Next == \/ pc = "modes" /\ Len(modes) < 3 /\ (\E g \in 0..MaxG : modes' = Append(modes, <<Ks[Len(modes) + 1], g>>)) /\ UNCHANGED <<kind, rule, area, skip, w, x0, s, q, c, pc>>
        \/ pc = "modes" /\ Len(modes) = 3 /\ pc' = "done" /\ UNCHANGED <<kind, modes, rule, area, skip, w, x0, s, q, c>>
        \/ pc = "axes" /\ Len(w) < 2
           /\ (\E ww \in 1..MaxW, xx \in {5, 8}, ss \in {0, 1}, qq \in {1, 2} :
                  w' = Append(w, 4 * ww) /\ x0' = Append(x0, xx) /\ s' = Append(s, ss) /\ q' = Append(q, qq))
           /\ UNCHANGED <<kind, modes, rule, area, skip, c, pc>>
        \/ pc = "axes" /\ Len(w) > 0 /\ (\E a \in {0, 1}, b \in {0 - 2, 3}, d \in {0, 0 - 1} : c' = <<a, b, d>>) /\ pc' = "done"
           /\ UNCHANGED <<kind, modes, rule, area, skip, w, x0, s, q>>
Spec == Init /\ [][Next]_vars
Law == pc = "done" /\ kind = "law"
k0 == modes[1][1]
\* T and 2T
Halve == Law => LET a == k0  b == k0 \div 2 IN
   /\ 2 * FrT(b) - FrT(a) <= 20 - SvT(a) /\ 2 * FrT(b) - FrT(a) >= 0 - SvT(b) - 20
   /\ LET dE == 2 * EnT(b) - EnT(a) IN dE >= ((CvT(a) \div 1000) * (LN2 \div 1000)) - 2000 /\ dE <= ((CvT(b) \div 1000) * (LN2 \div 1000)) + 3000
   /\ CvT(a) > 0 /\ CvT(a) < CvT(b) /\ CvT(b) <= 2081369 /\ SvT(a) < SvT(b) /\ SvT(a) > 0
   /\ Abs(SvT(a) + FrT(a) - (((EnT(a) \div 1000) * (LN2 \div 100)) \div 10)) < 5000
   /\ EnT(a) >= (a * M) \div 2 /\ Abs(Occ(a) - (EnT(a) - ((a * M) \div 2)) \div a) <= 1
Table == /\ Abs(LnM1[6] - LnM1[3] - 2 * LnM1[2]) <= 2
         /\ \A j \in 1..9 : LnM1[j + 1] - LnM1[j] > LN2 /\ (j > 1 => LnM1[j + 1] - LnM1[j] < LnM1[j] - LnM1[j - 1] \/ j = 1)
Is == (0 - 1)..2     \* up to the spinodal
Dv(i) == Pow(10 - i, 3) - Pow(9 - i, 3)
VinLaw == /\ VinE(0) = 0 /\ VinP(0) = 0 /\ VinB(0) = M
          /\ \A i \in Is : /\ VinP(i) < VinP(i + 1) /\ (i # 0 => VinE(i) > 0)
                           \* convex: the difference of energies between the two tangents (4 B0 V0 / (B1-1)^2 = 0.187321 B0 V0)
                           /\ LET dE == ((VinE(i + 1) - VinE(i)) \div 1000) * 187  IN
                              dE >= ((VinP(i) \div 1000) * Dv(i)) - 3000 - Abs(dE) \div 100 /\ dE <= ((VinP(i + 1) \div 1000) * Dv(i)) + 3000 + Abs(dE) \div 100
Gib == pc = "done" /\ kind = "gibbs"
St == [w |-> w, x0 |-> x0, s |-> s, q |-> q, c |-> c, rat |-> [a \in DOMAIN w |-> 1], grid |-> <<>>]
Ps == {p \in (0 - 16)..16 : Divides(St, p)}
Minimum == Gib => \A t \in {0, 3}, p \in Ps : LET o == Opt(St, t, p) IN
   /\ \A a \in DOMAIN w : \A e \in {0 - 1, 1} : Gibb(St, [o EXCEPT ![a] = @ + e], t, p) = GOpt(St, t, p) + w[a]
   /\ \A p2 \in Ps : p2 > p => /\ GOpt(St, t, p2) - GOpt(St, t, p) <= (p2 - p) * VOpt(St, t, p)
                               /\ GOpt(St, t, p2) - GOpt(St, t, p) >= (p2 - p) * VOpt(St, t, p2)
   /\ VOpt(St, t + 1, p) - VOpt(St, t, p) = SlopeV(St)
   /\ GOpt(St, t + 2, p) - 2 * GOpt(St, t + 1, p) + GOpt(St, t, p) = Poly(c, t, 2)
\* the integral over a density of states: normalised, the mean over the oscillators
Mean == (pc = "done" /\ kind = "osc") => LET st == [modes |-> modes, rule |-> rule, area |-> area, skip |-> skip] IN
   (Sum(W2(st)) > 0 /\ \A x \in DOMAIN modes : modes[x][1] = 0 => modes[x][2] = 0) => /\ Integral(st, 1, EnT) >= Integral(st, 2, EnT) - Tol(st)
        /\ (area # 0 => Integral(st, 2, CvT) <= area * (2081369 + 1))
Code == Sum([i \in DOMAIN modes |-> modes[i][2] * (3 + 4 * i)]) + area + (IF skip THEN 1 ELSE 0) + (IF rule = "sum" THEN 2 ELSE 0)
        + Sum([i \in DOMAIN w |-> w[i] + 3 * x0[i] + 5 * s[i] + 7 * q[i]]) + Sum([i \in DOMAIN c |-> (c[i] + 3) * i])
Emit == (pc = "done" /\ kind # "law" /\ Code % EmitMod = 0) => PrintT("SC " \o ToJson([kind |-> kind, modes |-> modes, rule |-> rule, area |-> area, skip |-> skip, w |-> w, x0 |-> x0, s |-> s, q |-> q, c |-> c]))
====
