---- MODULE Loops ----
(* Parameter grids and their conversion to database columns / matrices (C07). *)
EXTENDS Tree
InitSt(hdr) == 0
Post(st, ev) == st

\* all combinations in nested-loop order: the last list varies fastest
RECURSIVE Product(_)
Product(lists) == IF lists = <<>> THEN << <<>> >>
  ELSE FlattenS([i \in DOMAIN lists[1] |-> LET rest == Product(Tail(lists)) IN
                   [j \in DOMAIN rest |-> <<lists[1][i]>> \o rest[j]]])
Loops(lists, flat) == LET p == Product(lists) IN
  [i \in DOMAIN p |-> IF flat THEN LET l == Leaves(Node(p[i])) IN [j \in DOMAIN l |-> Leaf(l[j])] ELSE p[i]]

\* values: [t |-> type letter, v |-> text];  functions by name
SqlType(t) == CASE t = "i" -> "INTEGER" [] t = "b" -> "INTEGER" [] t = "f" -> "REAL" [] t = "s" -> "TEXT" [] t = "n" -> "NULL"
FixT(ty) == IF ty = "FLOAT" THEN "REAL" ELSE ty
Apply(f, x) == CASE f = "id" -> x
                 [] f = "wrap" -> [t |-> "s", v |-> "A<" \o x.v \o ">"]
                 [] f = "const" -> [t |-> "i", v |-> "42"]
                 [] f = "none" -> [t |-> "n", v |-> ""]
\* an empty file value defaults to the database value
FileVal(fv, sv) == IF fv.t = "n" THEN sv ELSE fv
Entry(key, ty, sv, fv) == [key |-> key, type |-> ty, sv |-> sv, fv |-> FileVal(fv, sv)]
Column(ev) ==
  LET sv == [i \in DOMAIN ev.lst |-> Apply(ev.sf, ev.lst[i])]
      ty == IF ev.type = "" THEN SqlType(sv[1].t) ELSE FixT(ev.utype)
  IN [i \in DOMAIN ev.lst |-> Entry(ev.key, ty, sv[i], Apply(ev.ff, ev.lst[i]))]
ColumnRefused(ev) == Cardinality({Apply(ev.sf, ev.lst[i]).t : i \in DOMAIN ev.lst}) # 1
Fn(fs, key) == LET hit == {i \in DOMAIN fs : fs[i][1] = key} IN IF hit = {} THEN "id" ELSE fs[CHOOSE i \in hit : TRUE][2]
Matrix(ev) ==
  [r \in DOMAIN ev.lists |-> [c \in DOMAIN ev.lists[r] |->
     LET x == ev.lists[r][c]
         key == ev.names[c]
         ty == IF ev.types = <<>> THEN SqlType(ev.lists[1][c].t) ELSE FixT(ev.types[c])
     IN Entry(key, ty, Apply(Fn(ev.sfs, key), x), Apply(Fn(ev.ffs, key), x))]]

\* every row that occurs, once, in the order of first occurrence
RECURSIVE Unique(_)
Unique(rows) == IF rows = <<>> THEN <<>> ELSE LET u == Unique(SubSeq(rows, 1, Len(rows) - 1)) r == rows[Len(rows)] IN
  IF \E i \in DOMAIN u : u[i] = r THEN u ELSE Append(u, r)

Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C07:crash"}
    [] ev.op = "loops" -> IF ev.exc = "" /\ ev.res = Loops(ev.lists, ev.flat) THEN {} ELSE {"C07:nested_loops"}
    [] ev.op = "flatten" -> IF ev.exc = "" /\ ev.res = Leaves(Node(ev.items)) THEN {} ELSE {"C07:flatten"}
    [] ev.op = "unique" -> IF ev.exc = "" /\ ev.res = Unique(ev.rows) THEN {} ELSE {"C07:unique_rows"}
    [] ev.op = "column" -> IF ev.old = FALSE /\ ColumnRefused(ev) THEN (IF ev.exc # "" THEN {} ELSE {"C07:mixed_column_accepted"})
                           ELSE IF ev.exc = "" /\ ev.res = Column(ev) THEN {} ELSE {"C07:sql_column"}
    [] ev.op = "matrix" -> IF ev.types = <<>> /\ Len(ev.names) > Len(ev.lists[1]) THEN {}   \* surplus names: unspecified
                           ELSE IF Len(ev.names) # Len(ev.lists[1]) THEN (IF ev.exc # "" THEN {} ELSE {"C07:wrong_width_accepted"})
                           ELSE IF ev.exc = "" /\ ev.res = Matrix(ev) THEN {} ELSE {"C07:sql_matrix"}
    [] OTHER -> {"unknown"}
====
