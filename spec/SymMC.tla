---- MODULE SymMC ----
(* Prototype crystals, described in ever different ways (supercells, moved origins,
   renamed atoms, skewed cells): what the specification calls primitive contents, volume
   and neighbour shells never changes; the histories are emitted for replay. *)
EXTENDS Sym, Json
CONSTANTS EmitMod, MaxN, Depth, Protos, ShellDepth
VARIABLES proto, cr, hist
vars == <<proto, cr, hist>>
C(a, b, c) == <<<<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>>>>
FCC(a) == <<<<0, a, a>>, <<a, 0, a>>, <<a, a, 0>>>>
Mk(cell, den, cf, sy) == [cell |-> cell, den |-> den, cf |-> cf, sy |-> sy]
O == <<0, 0, 0>>
P == [sc |-> Mk(C(3, 3, 3), 1, <<O>>, <<"Al">>),
      bcc |-> Mk(C(3, 3, 3), 2, <<O, <<1, 1, 1>>>>, <<"Fe", "Fe">>),
      fcc |-> Mk(C(4, 4, 4), 2, <<O, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>>>, <<"Al", "Al", "Al", "Al">>),
      cscl |-> Mk(C(3, 3, 3), 2, <<O, <<1, 1, 1>>>>, <<"Na", "Cl">>),
      nacl |-> Mk(FCC(2), 2, <<O, <<1, 1, 1>>>>, <<"Na", "Cl">>),
      zns |-> Mk(FCC(2), 4, <<O, <<1, 1, 1>>>>, <<"Zn", "S">>),
      diamond |-> Mk(FCC(2), 4, <<O, <<1, 1, 1>>>>, <<"C", "C">>),
      tetra |-> Mk(C(3, 3, 5), 2, <<O, <<1, 1, 1>>>>, <<"Ti", "O">>),
      ctetra |-> Mk(C(3, 3, 5), 2, <<O, <<1, 1, 1>>>>, <<"Ti", "Ti">>),
      ortho |-> Mk(C(3, 4, 5), 2, <<O, <<1, 0, 0>>>>, <<"H", "O">>),
      perov |-> Mk(C(4, 4, 4), 2, <<O, <<1, 1, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>>>, <<"Ca", "Ti", "O", "O", "O">>),
      polar |-> Mk(C(3, 3, 4), 4, <<O, <<0, 0, 1>>>>, <<"C", "O">>),
      mono |-> Mk(<<<<4, 0, 0>>, <<1, 5, 0>>, <<0, 0, 3>>>>, 2, <<O>>, <<"H">>),
      tri |-> Mk(<<<<4, 0, 0>>, <<1, 5, 0>>, <<-1, 2, 6>>>>, 4, <<O>>, <<"H">>),
      tri1 |-> Mk(<<<<4, 0, 0>>, <<1, 5, 0>>, <<-1, 2, 6>>>>, 8, <<O, <<1, 3, 2>>, <<4, 1, 5>>>>, <<"H", "O", "N">>)]
Init == proto \in Protos /\ cr = P[proto] /\ hist = <<>>
Add(how, v) == hist' = Append(hist, [how |-> how, v |-> v]) /\ proto' = proto
Dims == {<<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<1, 2, 2>>, <<3, 1, 1>>}
\* a shift by v / den
Next == /\ Len(hist) < Depth
        /\ \/ \E d \in Dims : N(cr) * Prod(d) <= MaxN /\ cr' = Super(cr, d) /\ Add("super", d)
           \/ \E v \in {<<1, 0, 0>>, <<-1, 2, 5>>} : cr' = Shift(cr, v) /\ Add("shift", v)
           \/ \E p \in {[i \in 1..N(cr) |-> N(cr) + 1 - i], [i \in 1..N(cr) |-> (i % N(cr)) + 1]} : N(cr) > 1 /\ cr' = Perm(cr, p) /\ Add("perm", p)
           \/ \E t \in {<<1, 2, 1>>, <<3, 1, -1>>} : cr' = Rebase(cr, t[1], t[2], t[3]) /\ Add("rebase", t)
Spec == Init /\ [][Next]_vars
T(c) == Cardinality(Trans(c))
P0 == P[proto]
GroupLaw == LET S == Trans(cr) IN \A t, u \in S : Wrap([k \in 1..3 |-> t[k] + u[k]], cr.den) \in S
ContentLaw == /\ N(cr) * T(P0) = N(P0) * T(cr)
              /\ \A s \in Range(P0.sy) : Count(cr, s) * T(P0) = Count(P0, s) * T(cr)
              /\ Abs(Det(cr.cell)) * T(P0) = Abs(Det(P0.cell)) * T(cr)
DivLaw == \A s \in Range(cr.sy) : Count(cr, s) % T(cr) = 0
\* shells of the description and of the prototype, on the same grid of distances
R2 == 4
ShellLaw == N(cr) <= 4 /\ Len(hist) <= ShellDepth =>
   {<<k[1], k[2], k[3] \div ((cr.den \div P0.den) * (cr.den \div P0.den)), k[4] * T(P0)>> : k \in Shells(cr, R2)}
     = {<<k[1], k[2], k[3], k[4] * T(cr)>> : k \in Shells(P0, R2)}
Code == Len(hist) * 7 + cr.den * 3 + cr.cf[1][1] * 5 + cr.cf[N(cr)][2] * 11 + cr.cell[1][2] * 13 + N(cr) + cr.cell[3][1] * 17
View == <<proto, cr>>
Emit == (Code % EmitMod = 0 \/ hist = <<>>) => PrintT("SC " \o ToJson([proto |-> proto, cr |-> P[proto], hist |-> hist]))
====
