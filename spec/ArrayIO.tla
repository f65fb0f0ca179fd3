---- MODULE ArrayIO ----
(* Text files of arrays (C21).  An array is [s |-> shape, d |-> row-major data] with data
   as indices into a table of doubles.  A file is a sequence of rows (sequences of data)
   plus an optional header [shape, axis].  st.file is the current file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(hdr) == [rows |-> <<>>, hdr |-> FALSE, shape |-> <<>>, axis |-> 0]
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
NormAx(a, n) == IF a < 0 THEN a + n ELSE a            \* 0-based axis
Drop(s, ax) == SubSeq(s, 1, ax) \o SubSeq(s, ax + 2, Len(s))
At3(a, i, j, k) == a.d[(i * a.s[2] + j) * a.s[3] + k + 1]
At3ax(a, ax, ind, p, q) == IF ax = 0 THEN At3(a, ind, p, q) ELSE IF ax = 1 THEN At3(a, p, ind, q) ELSE At3(a, p, q, ind)
\* the rows written for an array: 1d one value per row, 2d its rows, 3d the chunks along the axis
Rows(a, axis) ==
  CASE Len(a.s) = 1 -> [i \in 1..a.s[1] |-> <<a.d[i]>>]
    [] Len(a.s) = 2 -> [i \in 1..a.s[1] |-> SubSeq(a.d, (i - 1) * a.s[2] + 1, i * a.s[2])]
    [] OTHER -> LET ax == NormAx(axis, 3) c == Drop(a.s, ax) IN
        Cat([ind \in 1..a.s[ax + 1] |-> [p \in 1..c[1] |-> [q \in 1..c[2] |-> At3ax(a, ax, ind - 1, p - 1, q - 1)]]])
\* can rows be an array of that shape cut along that axis
Fits(rows, s, axis) ==
  LET ncol == IF rows = <<>> THEN 0 ELSE Len(rows[1]) IN
  CASE Len(s) = 1 -> (ncol = 1 /\ s[1] = Len(rows)) \/ (Len(rows) = 1 /\ s[1] = ncol)
    [] Len(s) = 2 -> s = <<Len(rows), ncol>>
    [] OTHER -> LET ax == NormAx(axis, 3) c == Drop(s, ax) IN ncol = c[2] /\ Len(rows) = c[1] * s[ax + 1]
UnRows(rows, s, axis) ==
  IF Len(s) < 3 THEN [s |-> s, d |-> Cat(rows)]
  ELSE LET ax == NormAx(axis, 3) c == Drop(s, ax)
           El(i, j, k) == LET ind == IF ax = 0 THEN i ELSE IF ax = 1 THEN j ELSE k
                              p == IF ax = 0 THEN j ELSE i
                              q == IF ax = 2 THEN j ELSE k IN rows[ind * c[1] + p + 1][q + 1] IN
       [s |-> s, d |-> [n \in 1..Prod(s) |-> El((n - 1) \div (s[2] * s[3]), ((n - 1) \div s[3]) % s[2], (n - 1) % s[3])]]
Post(st, ev) ==
  CASE ev.op = "write" -> [rows |-> Rows(ev.arr, ev.axis), hdr |-> ev.header, shape |-> ev.arr.s, axis |-> ev.axis]
    [] ev.op = "noheader" -> [st EXCEPT !.hdr = FALSE]
    [] OTHER -> st                          \* comment lines, extra header text, reading
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C21:crash"}
    [] ev.op = "write" -> Iff(ev.exc = "", "C21:write_fails") \cup Iff(ev.exc # "" \/ ev.rows = Rows(ev.arr, ev.axis), "C21:file_layout")
    [] ev.op = "read" ->
         LET s == IF ev.shape # <<>> THEN ev.shape ELSE st.shape
             ax == IF ev.axis # 99 THEN ev.axis ELSE st.axis IN
         IF ~st.hdr /\ (ev.shape = <<>> \/ ev.axis = 99) THEN Iff(ev.exc # "", "C21:missing_header_accepted")
         ELSE IF ~Fits(st.rows, s, ax) THEN Iff(ev.exc # "" \/ Len(s) < 3, "C21:wrong_shape_accepted")
         ELSE Iff(ev.exc = "", "C21:read_fails") \cup
              (IF ev.exc # "" THEN {} ELSE
               LET r == UnRows(st.rows, s, ax) IN Iff(ev.arr.s = r.s, "C21:shape") \cup Iff(ev.arr.d = r.d, "C21:values"))
    [] OTHER -> {}
====
