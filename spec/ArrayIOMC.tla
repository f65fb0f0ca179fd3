---- MODULE ArrayIOMC ----
(* All shapes up to 3 x 3 x 3 and all axes: reading inverts writing, also along another
   axis that fits; every instance is emitted. *)
EXTENDS ArrayIO, Json
CONSTANT M
VARIABLES s, ax
vars == <<s, ax>>
Init == s \in UNION {[1..n -> 1..M] : n \in 1..3} /\ ax \in -3..2 /\ (Len(s) < 3 => ax = -1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == [s |-> s, d |-> [i \in 1..Prod(s) |-> i]]
RoundTrip == Fits(Rows(A, ax), s, ax) /\ UnRows(Rows(A, ax), s, ax) = A
Complete == \A i \in 1..Prod(s) : \E r \in DOMAIN Rows(A, ax) : \E c \in DOMAIN Rows(A, ax)[r] : Rows(A, ax)[r][c] = i
Swapped == Len(s) = 3 => \A b \in 0..2 : (Fits(Rows(A, ax), s, b) /\ UnRows(Rows(A, ax), s, b) = A) => Rows(A, ax) = Rows(A, b)
Emit == PrintT("SC " \o ToJson([shape |-> s, axis |-> ax]))
====
