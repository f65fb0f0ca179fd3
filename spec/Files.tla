---- MODULE Files ----
(* Structure files (C22 writers, C41 readers of cif and pdb).
   Numbers are indices into a table of doubles of the trace (0 = exactly zero, negative =
   a number that is not in the table), lammps numbers are integers on a grid.
   A structure is [sym, n (steps), cell, cc, frac, coords, forces]: cell[t] 3 x 3, cc[t] 6,
   frac/coords/forces[t] atoms x 3 (forces = <<>> if not given); tri = integer lower
   triangular cell, f8 = frac in 1/8, such that cell[1] = tri rotated.
   st.disk: path -> [kind, s] of what was written there last. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Iff(c, s) == IF c THEN {} ELSE {s}
InitSt(hdr) == [disk |-> <<>>, order |-> hdr.order]    \* order: all symbols of the trace in alphabetical order
Put(d, k, v) == [x \in (DOMAIN d) \cup {k} |-> IF x = k THEN v ELSE d[x]]
\* xyz: one block per step
Xyz(s, name) == [t \in 1..s.n |-> [n |-> Len(s.sym), name |-> name, atoms |-> [i \in 1..Len(s.sym) |-> [sym |-> s.sym[i], x |-> s.coords[t][i]]]]]
\* animated xsf
Axsf(s) == [steps |-> s.n, frames |-> [t \in 1..s.n |-> [idx |-> t, cidx |-> t, cell |-> s.cell[t], n |-> Len(s.sym),
             atoms |-> [i \in 1..Len(s.sym) |-> [sym |-> s.sym[i], x |-> s.coords[t][i],
                        f |-> IF s.forces = <<>> THEN <<>> ELSE s.forces[t][i]]]]]]
Sgroup(s, lat) == [lat |-> lat, cc |-> s.cc[1], n |-> Len(s.sym), atoms |-> [i \in 1..Len(s.sym) |-> [sym |-> s.sym[i], x |-> s.frac[1][i]]]]
Cif(s) == [cc |-> s.cc[1], sg |-> "P 1", num |-> "1", ops |-> <<"x,y,z">>, atoms |-> [i \in 1..Len(s.sym) |-> [sym |-> s.sym[i], label |-> s.sym[i], x |-> s.frac[1][i]]]]
\* lammps: types are numbers of the species in alphabetical order, positions in the aligned cell
Uniq(order, sym) == SelectSeq(order, LAMBDA x : x \in Range(sym))
TypeOf(order, sym, x) == CHOOSE k \in 1..Len(Uniq(order, sym)) : Uniq(order, sym)[k] = x
Dot(v, m) == [k \in 1..3 |-> v[1] * m[1][k] + v[2] * m[2][k] + v[3] * m[3][k]]
Lmp(order, s) == [n |-> Len(s.sym), ntypes |-> Len(Uniq(order, s.sym)), lo |-> <<0, 0, 0>>,
  hi |-> <<s.tri[1][1], s.tri[2][2], s.tri[3][3]>>, tilt |-> <<s.tri[2][1], s.tri[3][1], s.tri[3][2]>>,
  atoms |-> [i \in 1..Len(s.sym) |-> [id |-> i, type |-> TypeOf(order, s.sym, s.sym[i]), x |-> Dot(s.f8[i], s.tri)]],
  masses |-> [k \in 1..Len(Uniq(order, s.sym)) |-> [id |-> k, m |-> Uniq(order, s.sym)[k]]], symfile |-> s.sym]
Post(st, ev) ==
  CASE ev.op = "write" -> [st EXCEPT !.disk = Put(@, ev.path, [kind |-> ev.kind, s |-> ev.s])]
    [] OTHER -> st
\* what a hand-written cif/pdb file f of that content means.  f: [blocks: name -> [cc, atoms: [label, type, x, c]]]
Alpha == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
          "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C22,C41:crash"}
    [] ev.op = "write" ->
       (IF ev.exc # "" THEN {"C22:fails_" \o ev.kind}
        ELSE IF ~ev.readable THEN {"C22:malformed_" \o ev.kind}
        ELSE Iff(ev.same, "C22:argument_changed") \cup
        CASE ev.kind = "xyz" -> Iff(ev.file = Xyz(ev.s, ev.name), "C22:xyz")
          [] ev.kind = "axsf" -> Iff(ev.file = Axsf(ev.s), "C22:axsf")
          [] ev.kind = "sgroup" -> Iff(ev.file = Sgroup(ev.s, ev.lat), "C22:sgroup")
          [] ev.kind = "cif" -> Iff(ev.file = Cif(ev.s), "C22:cif")
          [] ev.kind = "lammps" -> Iff(ev.file = Lmp(st.order, ev.s), "C22:lammps"))
    [] ev.op = "readback" ->          \* read_cif of a file written before
       LET s == st.disk[ev.path].s IN
       IF ev.exc # "" THEN {"C22:readback_fails"}
       ELSE Iff(ev.sym = s.sym, "C22:readback_symbols") \cup Iff(ev.cc = s.cc[1], "C22:readback_cell") \cup Iff(ev.frac = s.frac[1], "C22:readback_coords")
            \cup Iff(ev.tri = s.tri, "C22:readback_cell_matrix") \cup Iff(ev.x8 = [i \in 1..Len(s.sym) |-> Dot(s.f8[i], s.tri)], "C22:readback_cartesian")
    [] ev.op = "cif" ->               \* read a cif file with several blocks; block = "" -> the first one
       LET b == IF ev.block = "" THEN 1 ELSE CHOOSE k \in DOMAIN ev.f : ev.f[k].name = ev.block
           f == ev.f[b] IN
       IF ev.exc # "" THEN {"C41:cif_fails"}
       ELSE Iff(ev.sym = [i \in DOMAIN f.atoms |-> f.atoms[i].el], "C41:cif_symbols") \cup Iff(ev.cc = f.cc, "C41:cif_cell")
            \cup Iff(ev.frac = IF f.cart THEN <<>> ELSE [i \in DOMAIN f.atoms |-> f.atoms[i].x], "C41:cif_fractional")
            \cup Iff(ev.coords = IF f.cart THEN [i \in DOMAIN f.atoms |-> f.atoms[i].x] ELSE <<>>, "C41:cif_cartesian")
    [] ev.op = "pdb" ->
       IF ev.exc # "" THEN {"C41:pdb_fails"}
       ELSE Iff(ev.sym = [i \in DOMAIN ev.f.atoms |-> ev.f.atoms[i].el], "C41:pdb_symbols") \cup Iff(ev.cc = ev.f.cc, "C41:pdb_cell")
            \cup Iff(ev.coords = [i \in DOMAIN ev.f.atoms |-> ev.f.atoms[i].x], "C41:pdb_coords")
    [] OTHER -> {}
====
