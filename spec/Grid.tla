---- MODULE Grid ----
(* Containers of 2d scalar data z(x,y) and the table -> grid conversion (C31).
   A container is what it holds: axes x, y (distinct values, any order) and z (one row per x value)
   or no z.  Every form it shows -- axes, double-loop columns, grids, point list, values -- is a
   projection of that.  Handles live in st.c (a function from handle to container). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
NoZ == <<>>
Data(x, y, z) == [x |-> x, y |-> y, z |-> z]
RECURSIVE Cat(_)
Cat(r) == IF r = <<>> THEN <<>> ELSE Head(r) \o Cat(Tail(r))
\* projections
GX(c) == [i \in DOMAIN c.x |-> [j \in DOMAIN c.y |-> c.x[i]]]
GY(c) == [i \in DOMAIN c.x |-> [j \in DOMAIN c.y |-> c.y[j]]]
LX(c) == Cat(GX(c))
LY(c) == Cat(GY(c))
Pts(c) == [k \in 1..(Len(c.x) * Len(c.y)) |-> <<LX(c)[k], LY(c)[k]>>]
Forms(c) == [x |-> c.x, y |-> c.y, nx |-> Len(c.x), ny |-> Len(c.y), X |-> GX(c), Y |-> GY(c), xx |-> LX(c), yy |-> LY(c),
             XY |-> Pts(c), Z |-> c.z, zz |-> Cat(c.z)]
\* and back from the double loop columns: the axes in order of first appearance
RECURSIVE First(_)
First(s) == IF s = <<>> THEN <<>> ELSE LET q == First(SubSeq(s, 1, Len(s) - 1)) IN
            IF \E i \in DOMAIN q : q[i] = s[Len(s)] THEN q ELSE Append(q, s[Len(s)])
Fold(v, ny) == [i \in 1..(Len(v) \div ny) |-> SubSeq(v, (i - 1) * ny + 1, i * ny)]
Unloop(xx, yy, zz) == Data(First(xx), First(yy), IF zz = <<>> THEN NoZ ELSE Fold(zz, Len(First(yy))))
\* giving data: form "xy", "X", "XX", "pt" give both axes, "x"/"y"/... one of them; zform "none", "Z", "zz"
Given(old, ev) ==
  LET hx == ev.part \in {"both", "x"} hy == ev.part \in {"both", "y"} IN
  Data(IF hx THEN ev.x ELSE old.x, IF hy THEN ev.y ELSE old.y, IF ev.zform = "none" THEN old.z ELSE ev.z)
Empty == Data(<<>>, <<>>, NoZ)
InitSt(hdr) == [c |-> <<>>]
Post(st, ev) ==
  CASE ev.op = "new" -> [st EXCEPT !.c = Append(@, Given(Empty, ev))]
    [] ev.op = "upd" -> [st EXCEPT !.c[ev.t] = Given(@, ev)]
    [] ev.op = "copy" -> [st EXCEPT !.c = Append(@, st.c[ev.t])]
    [] ev.op = "poke" -> [st EXCEPT !.c[ev.t] = Given(Empty, ev)]     \* every array of t overwritten in place
    [] OTHER -> st
\* table (rows of coordinates and value, nested loop over ascending axes) -> grid
Axis(rows, k) == LET S == {rows[i][k] : i \in DOMAIN rows} IN [n \in 1..Cardinality(S) |-> CHOOSE v \in S : Cardinality({w \in S : w < v}) = n - 1]
Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C31:crash"}
  ELSE IF ev.op = "nd" THEN
    IF ev.exc # "" THEN {"C31:nd_fails"}
    ELSE LET k == Len(ev.rows[1]) - 1 IN
         Iff(ev.axes = [a \in 1..k |-> Axis(ev.rows, a)], "C31:nd_axes")
         \cup Iff(ev.shape = [a \in 1..k |-> Len(Axis(ev.rows, a))], "C31:nd_shape")
         \cup Iff(\A i \in DOMAIN ev.rows : \E g \in DOMAIN ev.grid : ev.grid[g] = ev.rows[i], "C31:nd_value_at_other_place")
         \cup Iff(Len(ev.grid) = Len(ev.rows), "C31:nd_number")
  ELSE IF ev.op = "ndbad" THEN Iff(ev.exc # "", "C31:nd_incomplete_table_accepted")
  ELSE IF ev.exc # "" THEN {"C31:fails_" \o ev.op}
  ELSE LET c == Post(st, ev).c IN
       UNION {IF ev.op = "poke" /\ k = ev.t THEN {} ELSE
              LET F == Forms(c[k]) o == ev.show[k] IN
              UNION {Iff(o[f] = F[f], (IF ev.op = "poke" THEN "C31:shared_with_copy_" ELSE IF k = (IF ev.op = "upd" THEN ev.t ELSE Len(c)) THEN "C31:" \o ev.op \o "_" ELSE "C31:other_changed_") \o f) : f \in DOMAIN F}
              : k \in DOMAIN c}
====
