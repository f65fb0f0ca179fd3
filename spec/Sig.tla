---- MODULE Sig ----
(* Padding, mirroring, smoothing, peak finding (C33).  Arrays are [s: shape, d: row-major]; the
   channel of an array along an axis is a sequence, and every operation acts on each channel alone. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE Prod(_), Sum(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Unflat(_, _), Flat(_, _)
Unflat(s, k0) == IF s = <<>> THEN <<>> ELSE <<k0 \div Prod(Tail(s))>> \o Unflat(Tail(s), k0 % Prod(Tail(s)))
Flat(s, i) == IF s = <<>> THEN 0 ELSE Head(i) * Prod(Tail(s)) + Flat(Tail(s), Tail(i))
Ax(a, ax) == IF ax < 0 THEN ax + Len(a.s) + 1 ELSE ax + 1
Channel(a, p, i) == [n \in 1..a.s[p] |-> a.d[Flat(a.s, [i EXCEPT ![p] = n - 1]) + 1]]
\* apply F (sequence -> sequence of length L) to every channel along position p
Along(a, p, L, F(_)) == LET s == [a.s EXCEPT ![p] = L] IN
  [s |-> s, d |-> [k \in 1..Prod(s) |-> LET i == Unflat(s, k - 1) IN F(Channel(a, p, i))[i[p] + 1]]]
\* ---- sequences
Zeros(n) == [i \in 1..n |-> 0]
Pad(v, n, where) == IF where = "end" THEN v \o Zeros(n) ELSE Zeros(n) \o v
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
NewLen(ev, n) == CASE ev.how = "default" -> 2 * n [] ev.how = "nadd" -> n + ev.arg [] ev.how = "upto" -> ev.arg
                   [] ev.how = "tonext" -> Pow2(IF ev.arg = 0 THEN n ELSE ev.arg, 1)
Rev(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
Mirror(v) == Rev(v) \o Tail(v)
\* the signal continued beyond its ends: mirrored at the end points, or constant
Cont(v, i, edge) == LET n == Len(v) IN
  IF edge = "c" THEN v[IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i]
  ELSE IF n = 1 THEN v[1] ELSE LET q == (i - 1) % (2 * (n - 1)) IN v[(IF q < n THEN q ELSE 2 * (n - 1) - q) + 1]
\* centre of the kernel; an even kernel has its centre left of the middle (result shifted to the right)
Centre(k) == (Len(k) + 1) \div 2
Smooth(v, k, edge) == [i \in DOMAIN v |-> Sum([j \in DOMAIN k |-> k[j] * Cont(v, i + Centre(k) - j, edge)])]
Peaks(y, lim) == SelectSeq([i \in DOMAIN y |-> i - 1], LAMBDA i : i > 0 /\ i < Len(y) - 1 /\ y[i + 1] > y[i] /\ y[i + 1] > y[i + 2] /\ (lim = <<>> \/ y[i + 1] > lim[1]))
\* third differences vanish in the window around i0 (0-based): a parabola, its vertex is known
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Win(y, i0, sp) == Max(i0 - sp, 0)..Min(i0 + sp, Len(y) - 1)
Para(y, i0, sp) == \A i \in Win(y, i0, sp) : i + 3 \in Win(y, i0, sp) => y[i + 4] - 3 * y[i + 3] + 3 * y[i + 2] - y[i + 1] = 0
Curv(y, i) == y[i] - 2 * y[i + 1] + y[i + 2]                     \* at 0-based i
\* vertex position times 2*Curv, positions x0 + h*i
Vertex(y, i, x0, h) == 2 * Curv(y, i) * (x0 + h * i) + h * (y[i] - y[i + 2])
MinS(v) == CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : x <= v[i]
InitSt(hdr) == [n |-> 0]
Post(st, ev) == st
WelchN(M) == [n \in 1..M |-> IF M = 1 THEN 1 ELSE (M - 1) * (M - 1) - (2 * (n - 1) - (M - 1)) * (2 * (n - 1) - (M - 1))]
Expect(ev) == LET p == Ax(ev.a, ev.axis) n == ev.a.s[p] IN
  CASE ev.op = "pad" -> Along(ev.a, p, NewLen(ev, n), LAMBDA v : Pad(v, NewLen(ev, n) - n, ev.where))
    [] ev.op = "mirror" -> Along(ev.a, p, 2 * n - 1, Mirror)
    [] ev.op = "smooth" -> Along(ev.a, p, n, LAMBDA v : Smooth(v, ev.k, ev.edge))
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C33:crash"}
    [] ev.op \in {"pad", "mirror", "smooth"} ->
         IF ev.op = "pad" /\ NewLen(ev, ev.a.s[Ax(ev.a, ev.axis)]) < ev.a.s[Ax(ev.a, ev.axis)] THEN Iff(ev.exc # "", "C33:pad_cuts")
         ELSE IF ev.exc # "" THEN {"C33:fails_" \o ev.op \o (IF ev.op = "pad" THEN ev.how ELSE "")}
         ELSE Iff(ev.o = Expect(ev), "C33:" \o ev.op \o (IF ev.op = "smooth" THEN "_" \o ev.edge \o "_" \o ev.src ELSE "")) \cup Iff(ev.kept, "C33:input_changed_" \o ev.op)
    [] ev.op = "rest" -> Iff(ev.same, "C33:smoothed_trajectory_lost_" \o ev.name)
    [] ev.op = "peaks" -> IF ev.exc # "" THEN {"C33:fails_peaks"} ELSE
         Iff(ev.idx = Peaks(ev.y, ev.lim), "C33:peaks" \o (IF ev.lim = <<>> THEN "" ELSE "_ymin")) \cup Iff(ev.kept, "C33:input_changed_peaks")
    [] ev.op = "refine" ->
         LET P == Peaks(ev.y, ev.lim) IN
         IF \E i \in DOMAIN P : ~Para(ev.y, P[i], ev.spread) \/ Cardinality(Win(ev.y, P[i], ev.spread)) <= ev.k THEN {}
         ELSE IF ev.exc # "" THEN {"C33:fails_refine"} ELSE
              Iff(ev.idx = P, "C33:peaks_refine") \cup Iff(ev.idx # P \/ ev.pos = [i \in DOMAIN P |-> Vertex(ev.y, P[i], ev.x0, ev.h)], "C33:peak_position")
    [] ev.op = "scale" -> IF ev.exc # "" THEN {"C33:fails_scale"} ELSE Iff(ev.o = [i \in DOMAIN ev.v |-> ev.v[i] - MinS(ev.v)], "C33:scale") \cup Iff(ev.kept, "C33:input_changed_scale")
    [] ev.op = "odd" -> Iff(ev.o = IF ev.n % 2 = 1 THEN ev.n ELSE ev.n + ev.add, "C33:odd")
    [] ev.op = "welch" -> LET M == IF ev.sym \/ ev.n % 2 = 1 THEN ev.n ELSE ev.n + 1 IN Iff(ev.o = SubSeq(WelchN(M), 1, ev.n), "C33:welch")
    [] ev.op = "lorentz" -> Iff(Len(ev.o) = ev.n /\ \A i \in DOMAIN ev.o : ev.o[i] = ev.c, "C33:lorentz")
====
