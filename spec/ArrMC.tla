---- MODULE ArrMC ----
(* All small shapes, axes (also negative ones), slices and indices.  Laws between the operations. *)
EXTENDS Arr, Json
CONSTANTS MaxDim, MaxRank
VARIABLES shape, step, par
vars == <<shape, step, par>>
Sls == {All, [k |-> "sl", a |-> 1, b |-> Nil, c |-> Nil], [k |-> "sl", a |-> Nil, b |-> 0 - 1, c |-> Nil], [k |-> "sl", a |-> Nil, b |-> Nil, c |-> 0 - 1],
        [k |-> "sl", a |-> Nil, b |-> Nil, c |-> 2], [k |-> "sl", a |-> 0 - 2, b |-> 5, c |-> Nil], [k |-> "ix", a |-> 0, b |-> 0, c |-> 0], [k |-> "ix", a |-> 0 - 1, b |-> 0, c |-> 0]}
Init == shape = <<>> /\ step = "shape" /\ par = [axis |-> 0, sl |-> All, axs |-> {}]
Grow == step = "shape" /\ Len(shape) < MaxRank /\ \E n \in 1..MaxDim : shape' = Append(shape, n) /\ UNCHANGED <<step, par>>
Pick == /\ step = "shape" /\ shape # <<>> /\ step' = "done" /\ UNCHANGED shape
        /\ \E ax \in (0 - Len(shape))..(Len(shape) - 1), sl \in Sls, bs \in SUBSET (0..(Len(shape) - 1)) : par' = [axis |-> ax, sl |-> sl, axs |-> bs]
Next == Grow \/ Pick
Spec == Init /\ [][Next]_vars
A == Build(shape, LAMBDA i : 1 + Flat(shape, i) * 3)
B(s) == Build(s, LAMBDA i : 1000 + Flat(s, i))
SL == SlAx(A, par.sl, par.axis)
Laws == step = "done" =>
  LET T == Take(A, SL) b == B(T.s) P == Put(A, b, SL) IN
  /\ Take(P, SL) = b /\ Put(A, T, SL) = A
  /\ Cardinality({k \in DOMAIN A.d : P.d[k] # A.d[k]}) = Len(b.d)
  \* axis and axis - ndim are the same
  /\ Take(A, SlAx(A, par.sl, Ax(A, par.axis))) = T
  \* extending adds identical layers
  /\ LET E == Extend(A, 3, par.axis) p == IF par.axis < 0 THEN par.axis + Len(shape) + 1 ELSE par.axis IN
     Take(E, SlAx(E, [k |-> "ix", a |-> 1, b |-> 0, c |-> 0], p)) = A /\ SumAx(E, {p}, FALSE).d = [k \in DOMAIN A.d |-> 3 * A.d[k]]
  \* sums
  /\ Total(SumAx(A, par.axs, FALSE).d) = Total(A.d)
  /\ SumAx(A, par.axs, TRUE) = SumAx(A, (0..(Len(shape) - 1)) \ par.axs, FALSE)
Emit == step = "done" => PrintT("SC " \o ToJson([shape |-> shape, axis |-> par.axis, sl |-> par.sl, axs |-> par.axs]))
====
