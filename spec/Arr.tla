---- MODULE Arr ----
(* Array helpers (C30).  An array is [s: shape, d: elements in row-major order].  Axes count from
   0, negative ones from the end; a slice is [k: "sl", a, b, c] (start, stop, step; Nil if not
   given), an index [k: "ix", a]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
Nil == 99
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Prod(_), Total(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
\* 0-based multi-index of flat position k (1-based) and back
RECURSIVE Unflat(_, _), Flat(_, _)
Unflat(s, k0) == IF s = <<>> THEN <<>> ELSE <<k0 \div Prod(Tail(s))>> \o Unflat(Tail(s), k0 % Prod(Tail(s)))
Flat(s, i) == IF s = <<>> THEN 0 ELSE Head(i) * Prod(Tail(s)) + Flat(Tail(s), Tail(i))
At(a, i) == a.d[Flat(a.s, i) + 1]
Build(s, F(_)) == [s |-> s, d |-> [k \in 1..Prod(s) |-> F(Unflat(s, k - 1))]]
Idx(s) == {Unflat(s, k - 1) : k \in 1..Prod(s)}
Ax(a, ax) == IF ax < 0 THEN ax + Len(a.s) ELSE ax
\* the indices 0..n-1 a python slice selects, in order
RECURSIVE Range(_, _, _)
Range(x, y, c) == IF (c > 0 /\ x >= y) \/ (c < 0 /\ x <= y) THEN <<>> ELSE <<x>> \o Range(x + c, y, c)
Sel(n, sl) ==
  IF sl.k = "ix" THEN <<IF sl.a < 0 THEN sl.a + n ELSE sl.a>>
  ELSE LET c == IF sl.c = Nil THEN 1 ELSE sl.c
           P(x) == IF x < 0 THEN x + n ELSE x
           lo == IF c > 0 THEN 0 ELSE 0 - 1
           hi == IF c > 0 THEN n ELSE n - 1
           Clip(x) == Max(lo, Min(hi, P(x)))
           x == IF sl.a = Nil THEN (IF c > 0 THEN 0 ELSE n - 1) ELSE Clip(sl.a)
           y == IF sl.b = Nil THEN (IF c > 0 THEN n ELSE 0 - 1) ELSE Clip(sl.b)
       IN Range(x, y, c)
All == [k |-> "sl", a |-> Nil, b |-> Nil, c |-> Nil]
SlAx(a, sl, ax) == [i \in 1..Len(a.s) |-> IF i = Ax(a, ax) + 1 THEN sl ELSE All]
\* axes which stay (slices), shape of the selection, and where its element j comes from
Stay(sls) == SelectSeq([i \in DOMAIN sls |-> i], LAMBDA i : sls[i].k = "sl")
SelShape(a, sls) == [p \in DOMAIN Stay(sls) |-> Len(Sel(a.s[Stay(sls)[p]], sls[Stay(sls)[p]]))]
From(a, sls, j) == [i \in 1..Len(a.s) |-> LET S == Sel(a.s[i], sls[i]) IN
                       IF sls[i].k = "ix" THEN S[1] ELSE S[j[CHOOSE p \in DOMAIN Stay(sls) : Stay(sls)[p] = i] + 1]]
Take(a, sls) == Build(SelShape(a, sls), LAMBDA j : At(a, From(a, sls, j)))
\* b has the shape of the selection or is a scalar
Put(a, b, sls) ==
  LET sh == SelShape(a, sls)
      Hit(i) == {j \in Idx(sh) : From(a, sls, j) = i}
  IN Build(a.s, LAMBDA i : IF Hit(i) = {} THEN At(a, i) ELSE IF b.s = <<>> THEN b.d[1] ELSE At(b, CHOOSE j \in Hit(i) : TRUE))
Insert(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Extend(a, n, ax) == LET p == IF ax < 0 THEN ax + Len(a.s) + 1 ELSE ax IN
                    Build(Insert(a.s, p, n), LAMBDA i : At(a, SubSeq(i, 1, p) \o SubSeq(i, p + 2, Len(i))))
\* sum over a set of axes, or over all other ones
Keep(a, axs, inv) == SelectSeq([i \in 1..Len(a.s) |-> i], LAMBDA i : (i \in {Ax(a, x) + 1 : x \in axs}) = inv)
SumOf(S, F(_)) == LET RECURSIVE R(_) R(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN F(x) + R(T \ {x}) IN R(S)
SumAx(a, axs, inv) == LET K == Keep(a, axs, inv) IN
  Build([p \in DOMAIN K |-> a.s[K[p]]], LAMBDA j : SumOf({i \in Idx(a.s) : \A p \in DOMAIN K : i[K[p]] = j[p]}, LAMBDA i : At(a, i)))
SetOf(s) == {s[i] : i \in DOMAIN s}
Sq(a) == [s |-> a.s, d |-> [k \in DOMAIN a.d |-> a.d[k] * a.d[k]]]
Mask(arr, vals, eps) == [i \in DOMAIN arr |-> \E j \in DOMAIN vals : IF eps = 0 THEN arr[i] = vals[j] ELSE Abs(arr[i] - vals[j]) < eps]
Where(m) == SelectSeq([i \in DOMAIN m |-> i - 1], LAMBDA i : m[i + 1])
\* rows of a matrix given as sequence of rows, first occurrences in order
RECURSIVE Uniq(_)
Uniq(r) == IF r = <<>> THEN <<>> ELSE LET q == Uniq(SubSeq(r, 1, Len(r) - 1)) x == r[Len(r)] IN IF x \in SetOf(q) THEN q ELSE Append(q, x)
Transp(m) == [j \in 1..Len(m[1]) |-> [i \in DOMAIN m |-> m[i][j]]]
\* following similar points: row i+1 is ordered by the extrapolation of the rows ordered so far
Guess(rows, j, ord) ==
  LET n == Len(rows) IN
  IF n = 1 \/ ord = 0 THEN rows[n][j]
  ELSE IF n = 2 \/ ord = 1 THEN 2 * rows[n][j] - rows[n - 1][j]
  ELSE rows[n - 2][j] - 3 * rows[n - 1][j] + 3 * rows[n][j]
Near(row, g) == {k \in DOMAIN row : \A q \in DOMAIN row : Abs(row[k] - g) <= Abs(row[q] - g)}
RECURSIVE Follow(_, _, _)
Follow(m, ord, n) == IF n = 1 THEN <<m[1]>> ELSE LET R == Follow(m, ord, n - 1) IN Append(R, [j \in DOMAIN m[1] |-> m[n][CHOOSE k \in Near(m[n], Guess(R, j, ord)) : TRUE]])
NoTie(m, ord) == \A n \in 1..(Len(m) - 1) : LET R == Follow(m, ord, n) IN \A j \in DOMAIN m[1] : \A k, q \in Near(m[n + 1], Guess(R, j, ord)) : m[n + 1][k] = m[n + 1][q]
RECURSIVE Repeat(_, _, _), RepTie(_, _, _)
Repeat(m, ord, r) == IF r = 0 THEN m ELSE Repeat(Follow(m, ord, Len(m)), ord, r - 1)
RepTie(m, ord, r) == IF r = 0 THEN TRUE ELSE NoTie(m, ord) /\ RepTie(Follow(m, ord, Len(m)), ord, r - 1)
InitSt(hdr) == [n |-> 0]
Post(st, ev) == st
Mat(m) == [s |-> <<Len(m), IF m = <<>> THEN 0 ELSE Len(m[1])>>, d |-> [k \in 1..(Len(m) * Len(m[1])) |-> m[((k - 1) \div Len(m[1])) + 1][((k - 1) % Len(m[1])) + 1]]]
Expect(ev) ==
  CASE ev.op = "take" -> Take(ev.a, IF ev.sls # <<>> THEN ev.sls ELSE SlAx(ev.a, ev.sl, ev.axis))
    [] ev.op = "put" -> Put(ev.a, ev.b, IF ev.sls # <<>> THEN ev.sls ELSE SlAx(ev.a, ev.sl, ev.axis))
    [] ev.op = "extend" -> Extend(ev.a, ev.n, ev.axis)
    [] ev.op = "sum" -> IF ev.axs = <<>> /\ ~ev.keep THEN SumAx(ev.a, 0..(Len(ev.a.s) - 1), FALSE) ELSE SumAx(ev.a, SetOf(ev.axs), ev.keep)
    [] ev.op = "rms" -> [s |-> <<>>, d |-> <<Total(Sq(ev.a).d)>>]               \* nitems * rms^2
    [] ev.op = "rms3d" -> SumAx(Sq(ev.a), {ev.axis}, TRUE)
    [] ev.op = "rmsd" -> LET n == ev.a.s[1] r == ev.ref % n IN      \* natoms * rmsd^2
         Build(<<n>>, LAMBDA i : SumOf(0..(ev.a.s[2] * 3 - 1), LAMBDA k : LET d == At(ev.a, <<i[1], k \div 3, k % 3>>) - At(ev.a, <<r, k \div 3, k % 3>>) IN d * d))
    [] ev.op = "distsq" -> LET p == ev.a.s[1] q == ev.b.s[1] IN Build(<<p, q>>, LAMBDA i : SumOf(0..(ev.a.s[2] - 1), LAMBDA k : (At(ev.a, <<i[1], k>>) - At(ev.b, <<i[2], k>>)) * (At(ev.a, <<i[1], k>>) - At(ev.b, <<i[2], k>>))))
    [] ev.op = "vlin" -> LET D == IF ev.endp THEN Max(ev.num - 1, 1) ELSE ev.num IN Build(<<ev.num, Len(ev.x)>>, LAMBDA i : D * ev.x[i[2] + 1] + i[1] * (ev.y[i[2] + 1] - ev.x[i[2] + 1]))
    [] ev.op = "mesh" -> Build(<<2, Len(ev.x), Len(ev.y)>>, LAMBDA i : IF i[1] = 0 THEN ev.x[i[2] + 1] ELSE ev.y[i[3] + 1])
    [] ev.op = "uniq" -> Mat(IF ev.what = "row" THEN Uniq(ev.m) ELSE Transp(Uniq(Transp(ev.m))))
    [] ev.op = "order" -> Mat(Repeat(ev.m, ev.ord, ev.rep))
    [] ev.op = "inner" -> [s |-> <<Len(ev.x)>>, d |-> [i \in DOMAIN ev.x |-> IF i \in {1, Len(ev.x)} THEN 0 ELSE 1]]
    [] ev.op = "round" -> [s |-> <<>>, d |-> <<CHOOSE z \in ev.x..(ev.x + ev.m - 1) : z % ev.m = 0>>]
    [] ev.op = "norm" -> [s |-> <<>>, d |-> <<Total(Sq(ev.a).d)>>]
    [] ev.op = "normalize" -> [s |-> ev.a.s, d |-> ev.a.d]                   \* result times the maximum
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C30:crash"}
    [] ev.op = "match" -> IF ev.exc # "" THEN {"C30:fails_match"} ELSE LET m == Mask(ev.x, ev.y, ev.eps) IN Iff(ev.mask = m, "C30:match_mask") \cup Iff(ev.idx = Where(m), "C30:match_idx")
    [] ev.op = "order" /\ ~RepTie(ev.m, ev.ord, ev.rep) -> Iff(ev.exc = "", "C30:fails_order")
    [] OTHER -> IF ev.exc # "" THEN {"C30:fails_" \o ev.op}
                ELSE Iff(ev.o = Expect(ev), "C30:" \o ev.op) \cup Iff(ev.kept, "C30:input_changed_" \o ev.op)
                     \cup (IF ev.op = "take" THEN Iff(ev.view \in {"any", IF ev.copy THEN "copy" ELSE "view"}, "C30:take_view") ELSE {})
                     \cup (IF ev.op = "put" THEN Iff(ev.same, "C30:put_returns_other") ELSE {})
====
