---- MODULE FitMC ----
(* Laws of the polynomial part, for all integer polynomials within the bounds: uniqueness (a polynomial of degree d is
   fixed by d+1 points in each dimension, so reproducing the data with a method that can represent them means reproducing
   the polynomial everywhere), the derivative against exact difference formulas, extrema and roots. *)
EXTENDS Fit, Json
CONSTANTS MaxC, MaxD, EmitMod
VARIABLES c, d, nd, pc, u
vars == <<c, d, nd, pc, u>>
Coef == (0 - MaxC)..MaxC
Init == nd \in 1..2 /\ d \in 1..MaxD /\ c = <<>> /\ pc = "coef" /\ u = 0
NC == Pow(d + 1, nd)
\* two dimensional polynomials have few free coefficients
Free(k) == nd = 1 \/ Digit(k, 1, d, nd) + Digit(k, 2, d, nd) <= 2
Next == \/ pc = "coef" /\ Len(c) < NC /\ (\E x \in (IF Free(Len(c) + 1) THEN (IF nd = 2 THEN {0 - 1, 0, 2} ELSE Coef) ELSE {0}) : c' = Append(c, x)) /\ UNCHANGED <<d, nd, pc, u>>
        \/ pc = "coef" /\ Len(c) = NC /\ pc' = "done" /\ u' \in {0 - 1, 2} /\ UNCHANGED <<c, d, nd>>
Spec == Init /\ [][Next]_vars
E1(x, m) == Eval(c, d, 1, <<x>>, 1, m)
One == pc = "done" /\ nd = 1
\* exact central differences for degree <= 4
DerivLaw == One => /\ E1(u + 1, 0) - E1(u - 1, 0) = 2 * E1(u, 1) + (E1(u, 3) \div 3)
                   /\ E1(u + 1, 0) - 2 * E1(u, 0) + E1(u - 1, 0) = E1(u, 2) + (E1(u, 4) \div 12)
                   /\ E1(u, d + 1) = 0
\* zero at d+1 points means zero
Unique == One => ((\A x \in 0..d : E1(x, 0) = 0) => \A k \in DOMAIN c : c[k] = 0)
Unique2 == (pc = "done" /\ nd = 2) => ((\A x \in 0..d, y \in 0..d : Eval(c, d, 2, <<x, y>>, 1, 0) = 0) => \A k \in DOMAIN c : c[k] = 0)
\* a two-dimensional polynomial is a one-dimensional one on every line parallel to an axis
Slice == (pc = "done" /\ nd = 2) => \A x \in {0 - 2, 1, 3} :
    /\ Eval(c, d, 2, <<x, u>>, 1, 0) = Eval([k \in 1..d + 1 |-> Sum([a \in 1..d + 1 |-> c[(a - 1) * (d + 1) + k] * Pow(x, a - 1)])], d, 1, <<u>>, 1, 0)
    /\ Eval(c, d, 2, <<x, u>>, 2, 1) = Eval([k \in 1..d + 1 |-> Sum([a \in 1..d + 1 |-> c[(a - 1) * (d + 1) + k] * Pow(x, a - 1)])], d, 1, <<u>>, 1, 1)
Code == Sum([k \in DOMAIN c |-> (k + 2) * (c[k] + 7)]) + 5 * d
Emit == (pc = "done" /\ u = 2 /\ Code % EmitMod = 0) => PrintT("SC " \o ToJson([c |-> c, d |-> d, nd |-> nd, v |-> Code \div EmitMod]))
====
