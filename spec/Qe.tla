---- MODULE Qe ----
(* Quantum ESPRESSO text blocks, phonon files and k-paths (C37).  A phonon file is a sequence of q-points, each
   with its modes (frequency and one complex vector per atom); reading returns exactly these, in this order.
   Numbers in files are integers in units of the last printed digit; exact floating point values travel as text. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == hdr
Post(st, ev) == st
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Arr(shape, d) == [s |-> shape, d |-> d]

\* ---------------------------------------------------------------- phonon files: q = <<[q, w, re, im]>>
Qs(f) == Flat([i \in DOMAIN f |-> f[i].q])
Ws(f) == Flat([i \in DOMAIN f |-> f[i].w])
Vs(f, c) == Flat([i \in DOMAIN f |-> Flat(f[i][c])])
NQ(f) == Len(f)
\* all q-points (one = FALSE) or just the one of a dynamical matrix file
ModesBad(ev, f, nat, one, real) ==
  LET p == IF one THEN <<>> ELSE <<NQ(f)>> IN
  (IF ev.q = Arr(p \o <<3>>, Qs(f)) THEN {} ELSE {"C37:qpoints"})
  \cup (IF ev.w = Arr(p \o <<3 * nat>>, Ws(f)) THEN {} ELSE {"C37:frequencies"})
  \cup (IF ev.re = Arr(p \o <<3 * nat, nat, 3>>, Vs(f, "re")) /\ ((real /\ ev.im.s = <<-1>>) \/ ev.im = Arr(p \o <<3 * nat, nat, 3>>, Vs(f, "im"))) THEN {} ELSE {"C37:vectors"})
\* matdyn.freq: k-points and nbnd frequencies each; a cut file must not give more than it holds
FreqBad(ev, f, nb) ==
  LET n == Len(f) IN
  IF ev.cut THEN (IF ev.exc # "" THEN {}
                  ELSE IF Len(ev.q.s) = 2 /\ ev.q.s[1] <= n /\ ev.q = Arr(<<ev.q.s[1], 3>>, Qs(SubSeq(f, 1, ev.q.s[1]))) /\ ev.w = Arr(<<ev.q.s[1], nb>>, Ws(SubSeq(f, 1, ev.q.s[1])))
                       THEN {} ELSE {"C37:cut_file_gives_numbers_it_does_not_hold"})
  ELSE (IF ev.q = Arr(<<n, 3>>, Qs(f)) THEN {} ELSE {"C37:kpoints"}) \cup (IF ev.w = Arr(<<n, nb>>, Ws(f)) THEN {} ELSE {"C37:frequencies"})
\* dynmat.out table: one row per mode
TableBad(ev, rows) ==
  LET nc == Len(rows[1]) IN
  (IF ev.all = Arr(<<Len(rows), nc>>, Flat(rows)) THEN {} ELSE {"C37:table"})
  \cup (IF \A i \in DOMAIN ev.cols : LET c == ev.cols[i] IN IF c.i < nc THEN c.v = Arr(<<Len(rows)>>, [r \in DOMAIN rows |-> rows[r][c.i + 1]]) ELSE c.v.s = <<-1>> THEN {} ELSE {"C37:table_columns"})

\* ---------------------------------------------------------------- text blocks
Rows(ev) == ev.rows
BlockBad(ev, name) == IF ev.out = ev.rows THEN {} ELSE {"C37:" \o name}
\* numbers smaller than eps are printed as zero, all others exactly; eps < 0 switches this off
EpsOK(ev) == /\ Len(ev.out) = Len(ev.v)
             /\ \A i \in DOMAIN ev.v : (ev.out[i] = 0 /\ Abs(ev.v[i]) <= ev.eps) \/ (ev.out[i] = ev.v[i] /\ Abs(ev.v[i]) >= ev.eps)
KStr(base, l) == [i \in DOMAIN l |-> [k |-> base \o ToString(i), v |-> ToString(l[i])]]
FullOK(ev) == IF (ev.l = <<1, 1, 1>> /\ ev.gamma) \/ ev.word THEN ev.card = "gamma" /\ ev.out = <<>>
              ELSE ev.card = "automatic" /\ ev.out = ev.l \o ev.shift

\* ---------------------------------------------------------------- k-paths
\* N times the points of the path through the vertices v
PathPts(v, N) == [i \in 1..(Len(v) - 1) * N + 1 |->
    LET s == (i - 1) \div N  k == (i - 1) % N IN
    IF s + 1 = Len(v) THEN [c \in DOMAIN v[1] |-> N * v[Len(v)][c]]
    ELSE [c \in DOMAIN v[1] |-> N * v[s + 1][c] + k * (v[s + 2][c] - v[s + 1][c])]]
Sq(x) == x * x
RECURSIVE N2(_, _)
N2(a, i) == IF i = 0 THEN 0 ELSE Sq(a[i]) + N2(a, i - 1)
NormsOK(v, n) == /\ Len(n) = Len(v)
                 /\ Sq(n[1]) = N2(v[1], Len(v[1])) /\ n[1] >= 0
                 /\ \A i \in 2..Len(v) : n[i] >= n[i - 1] /\ Sq(n[i] - n[i - 1]) = N2([c \in DOMAIN v[1] |-> v[i][c] - v[i - 1][c]], Len(v[1]))

Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C37:crash"}
  ELSE IF ev.exc # "" /\ ~(ev.op = "freq" /\ ev.cut) THEN {"C37:" \o ev.op \o "_raises_" \o ev.exc}
  ELSE CASE ev.op = "modes" -> ModesBad(ev, st.f, st.nat, FALSE, FALSE)
         [] ev.op = "dyn" -> ModesBad(ev, <<st.f[ev.i]>>, st.nat, TRUE, FALSE)
         [] ev.op = "alldyn" -> ModesBad(ev, st.f, st.nat, FALSE, FALSE)
         [] ev.op = "dynmat" -> ModesBad(ev, <<st.f[1]>>, st.nat, TRUE, TRUE)
         [] ev.op = "freq" -> FreqBad(ev, st.f, st.nb)
         [] ev.op = "table" -> TableBad(ev, st.rows)
         [] ev.op \in {"atpos", "atpos_fast", "atspec"} -> BlockBad(ev, ev.op)
         [] ev.op = "eps" -> IF EpsOK(ev) THEN {} ELSE {"C37:small_numbers"}
         [] ev.op = "kstr" -> IF ev.out = KStr(ev.base, ev.l) THEN {} ELSE {"C37:kstr"}
         [] ev.op = "kpwin" -> IF ev.out = ev.l \o ev.shift THEN {} ELSE {"C37:kpwin"}
         [] ev.op = "kfull" -> IF FullOK(ev) THEN {} ELSE {"C37:kfull"}
         [] ev.op = "kpath" -> IF ev.out = PathPts(ev.v, ev.n) THEN {} ELSE {"C37:kpath"}
         [] ev.op = "norm" -> IF NormsOK(ev.v, ev.out) THEN {} ELSE {"C37:path_norm"}
         [] OTHER -> {"C37:unknown_event"}
====
