---- MODULE Sym ----
(* A crystal as such (C43): an integer cell, atoms on a grid of 1/den of it, species.
   What it is physically does not change when the cell is doubled, skewed, when the
   origin moves or the atoms are renamed: its lattice of translations, its contents per
   primitive cell, its neighbour shells, its space group.  Handing it to another package
   (ASE, spglib) and back must not change it at all; its primitive cell must be the same
   crystal with all translations taken out. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(hdr) == [cr |-> [cell |-> <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>, den |-> 1, cf |-> <<>>, sy |-> <<>>], grp |-> <<>>]
Iff(c, s) == IF c THEN {} ELSE {s}
Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
VM(v, m) == [k \in 1..3 |-> v[1] * m[1][k] + v[2] * m[2][k] + v[3] * m[3][k]]
Gram(m) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(m[i], m[j])]]
Wrap(v, d) == [k \in 1..3 |-> v[k] % d]
N(cr) == Len(cr.sy)
Occ(cr, v, s) == \E j \in 1..N(cr) : cr.sy[j] = s /\ Wrap(cr.cf[j], cr.den) = v
\* translations of the crystal within the cell
IsTrans(cr, t) == \A i \in 1..N(cr) : Occ(cr, Wrap([k \in 1..3 |-> cr.cf[i][k] + t[k]], cr.den), cr.sy[i])
Trans(cr) == {t \in {Wrap([k \in 1..3 |-> cr.cf[j][k] - cr.cf[1][k]], cr.den) : j \in 1..N(cr)} : IsTrans(cr, t)}
Count(cr, s) == Cardinality({i \in 1..N(cr) : cr.sy[i] = s})
\* neighbour shells: ordered pairs of species, squared distance (in 1/den^2) up to r2, pairs per cell
\* images in direction i which can be closer than the square root of r2: (|m| - 1/2) times the height of the cell
Reach(c, i, r2) == LET x == Cross(c[(i % 3) + 1], c[((i + 1) % 3) + 1]) R == {m \in 1..12 : (2 * m - 1) * (2 * m - 1) * Det(c) * Det(c) <= 4 * r2 * Dot(x, x)}
                   IN IF R = {} THEN 0 ELSE CHOOSE m \in R : \A k \in R : k <= m
Img(c, r2) == ((0 - Reach(c, 1, r2))..Reach(c, 1, r2)) \X ((0 - Reach(c, 2, r2))..Reach(c, 2, r2)) \X ((0 - Reach(c, 3, r2))..Reach(c, 3, r2))
Half(x, d) == ((x + d \div 2) % d) - d \div 2
Q(cr, i, j, m) == LET v == VM([k \in 1..3 |-> Half(cr.cf[i][k] - cr.cf[j][k], cr.den) + cr.den * m[k]], cr.cell) IN Dot(v, v)
Shells(cr, r2) == LET lim == r2 * cr.den * cr.den
                      S == {<<i, j, m, Q(cr, i, j, m)>> : i \in 1..N(cr), j \in 1..N(cr), m \in Img(cr.cell, r2)}
                      P == {<<cr.sy[p[1]], cr.sy[p[2]], p[4], p[1], p[2], p[3]>> : p \in {x \in S : x[4] > 0 /\ x[4] <= lim}}
                      K == {<<p[1], p[2], p[3]>> : p \in P}
                  IN {<<k[1], k[2], k[3], Cardinality({p \in P : p[1] = k[1] /\ p[2] = k[2] /\ p[3] = k[3]})>> : k \in K}

(* ---- the same crystal described differently ---- *)
Prod(d) == d[1] * d[2] * d[3]
Super(cr, d) ==      \* atom by atom, last direction fastest (as scell does)
  LET p == Prod(d) n == N(cr)
      im(k) == <<k \div (d[2] * d[3]), (k \div d[3]) % d[2], k % d[3]>>
  IN [cell |-> [r \in 1..3 |-> [c \in 1..3 |-> d[r] * cr.cell[r][c]]], den |-> cr.den * p,
      cf |-> [k \in 1..(n * p) |-> [c \in 1..3 |-> (cr.cf[((k - 1) \div p) + 1][c] + cr.den * im((k - 1) % p)[c]) * (p \div d[c])]],
      sy |-> [k \in 1..(n * p) |-> cr.sy[((k - 1) \div p) + 1]]]
Shift(cr, v) == [cr EXCEPT !.cf = [i \in DOMAIN cr.cf |-> [k \in 1..3 |-> cr.cf[i][k] + v[k]]]]
Perm(cr, p) == [cr EXCEPT !.cf = [i \in DOMAIN cr.cf |-> cr.cf[p[i]]], !.sy = [i \in DOMAIN cr.sy |-> cr.sy[p[i]]]]
\* cell vector i replaced by itself plus k times vector j
Rebase(cr, i, j, k) == [cr EXCEPT !.cell = [r \in 1..3 |-> IF r = i THEN [c \in 1..3 |-> cr.cell[i][c] + k * cr.cell[j][c]] ELSE cr.cell[r]],
                                  !.cf = [a \in DOMAIN cr.cf |-> [c \in 1..3 |-> IF c = j THEN cr.cf[a][c] - k * cr.cf[a][i] ELSE cr.cf[a][c]]]]
Apply(cr, ev) == CASE ev.how = "super" -> Super(cr, ev.v) [] ev.how = "shift" -> Shift(cr, ev.v)
                   [] ev.how = "perm" -> Perm(cr, ev.v) [] ev.how = "rebase" -> Rebase(cr, ev.v[1], ev.v[2], ev.v[3])

(* ---- space groups of the prototypes ---- *)
Group == [sc |-> <<221, "Pm-3m">>, bcc |-> <<229, "Im-3m">>, fcc |-> <<225, "Fm-3m">>, cscl |-> <<221, "Pm-3m">>, nacl |-> <<225, "Fm-3m">>,
          zns |-> <<216, "F-43m">>, diamond |-> <<227, "Fd-3m">>, tetra |-> <<123, "P4/mmm">>, ortho |-> <<47, "Pmmm">>, perov |-> <<221, "Pm-3m">>,
          ctetra |-> <<139, "I4/mmm">>, polar |-> <<99, "P4mm">>, mono |-> <<10, "P2/m">>, tri |-> <<2, "P-1">>, tri1 |-> <<1, "P1">>]

Post(st, ev) ==
  CASE ev.op = "base" -> [cr |-> ev.cr, grp |-> IF ev.proto \in DOMAIN Group THEN Group[ev.proto] ELSE <<>>]
    [] ev.op = "change" -> [st EXCEPT !.cr = Apply(st.cr, ev)]
    [] ev.op = "group" /\ ev.exc = "" /\ st.grp = <<>> -> [st EXCEPT !.grp = <<ev.num, ev.name>>]
    [] OTHER -> st
\* fractional coordinates in 1/den, wrapped into the cell where the direction is periodic (an atom on the border: either)
Back(cr, pbc, cf) == Len(cf) = N(cr) /\ \A i \in DOMAIN cf : \A k \in 1..3 :
   IF pbc[k] THEN (cf[i][k] - cr.cf[i][k]) % cr.den = 0 /\ cf[i][k] >= 0 /\ cf[i][k] <= cr.den ELSE cf[i][k] = cr.cf[i][k]
Z == [H |-> 1, C |-> 6, N |-> 7, O |-> 8, Na |-> 11, Al |-> 13, S |-> 16, Cl |-> 17, Ca |-> 20, Ti |-> 22, Fe |-> 26, Zn |-> 30]
Zs(cr) == [i \in DOMAIN cr.sy |-> Z[cr.sy[i]]]
Bad(st, ev) ==
  LET cr == st.cr IN
  CASE ev.op = "crash" -> {"C43:crash"}
    [] ev.op \in {"base", "change"} -> Iff(ev.exc = "", "C43:fails")
    [] ev.exc # "" -> {"C43:" \o ev.op \o "_fails"}
    [] ev.op = "ase" ->
         Iff(ev.sy = cr.sy, "C43:ase_symbols") \cup Iff(ev.cell = cr.cell, "C43:ase_cell") \cup Iff(ev.pbc = ev.want, "C43:ase_pbc")
         \cup Iff(ev.cf = cr.cf, "C43:ase_scaled_positions")
         \cup Iff(ev.xyz = [i \in DOMAIN cr.cf |-> VM(cr.cf[i], cr.cell)], "C43:ase_positions")
    [] ev.op = "back" -> Iff(ev.sy = cr.sy /\ ev.cell = cr.cell /\ Back(cr, ev.pbc, ev.cf), "C43:ase_round_trip")
         \cup Iff(ev.xyz = [i \in DOMAIN ev.cf |-> VM(ev.cf[i], cr.cell)], "C43:ase_round_trip_positions")
    [] ev.op = "fake" -> Iff(ev.sy = cr.sy /\ ev.cell = cr.cell /\ ev.cf = cr.cf /\ ev.z = Zs(cr) /\ ev.n = N(cr) /\ ev.xyz = [i \in DOMAIN cr.cf |-> VM(cr.cf[i], cr.cell)], "C43:minimal_atoms_object")
    [] ev.op = "partial" -> Iff(ev.none = ~ev.complete, "C43:incomplete_structure")
    [] ev.op = "spg" -> Iff(ev.cell = cr.cell /\ ev.cf = cr.cf /\ ev.z = Zs(cr), "C43:spglib_tuple")
    [] ev.op = "spgback" -> Iff(ev.sy = cr.sy /\ ev.cell = cr.cell /\ ev.cf = cr.cf, "C43:spglib_round_trip")
    [] ev.op = "group" -> Iff(st.grp = <<>> \/ <<ev.num, ev.name>> = st.grp, "C43:space_group")
    [] ev.op = "prim" -> LET T == Cardinality(Trans(cr)) IN
         IF ev.none THEN Iff(T = 1, "C43:reducible_cell_not_reduced")
         ELSE Iff(ev.n * T = N(cr) /\ \A s \in Range(cr.sy) \cup DOMAIN ev.count : (IF s \in DOMAIN ev.count THEN ev.count[s] ELSE 0) * T = Count(cr, s), "C43:primitive_contents")
              \cup Iff(ev.vol * T = Abs(Det(cr.cell)) * ev.volfac, "C43:primitive_volume")
              \cup Iff(Range(ev.shells) = {<<k[1], k[2], k[3], k[4] \div T>> : k \in Shells(cr, ev.r2)}, "C43:primitive_neighbours")
              \cup Iff(st.grp = <<>> \/ <<ev.num, ev.name>> = st.grp, "C43:primitive_space_group")
    [] ev.op = "same" -> LET o == ev.cr IN
         Iff(ev.ret = (o.sy = cr.sy /\ Gram(o.cell) = Gram(cr.cell) /\ \A i \in DOMAIN cr.cf : \A k \in 1..3 : o.cf[i][k] * cr.den = cr.cf[i][k] * o.den), "C43:is_same_struct")
    [] OTHER -> {}
====
