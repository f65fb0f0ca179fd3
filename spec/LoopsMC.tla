---- MODULE LoopsMC ----
EXTENDS Loops, Json
CONSTANTS MaxLists, MaxLen
VARIABLES lists
A == Leaf("i:1")
B == Leaf("s:b")
P == Node(<<Leaf("i:2"), Leaf("s:c")>>)
N == Node(<<Node(<<Leaf("i:3")>>), Leaf("f:0.5")>>)
Elems == {A, B, P, N}
Seqs == UNION {[1..n -> Elems] : n \in 0..MaxLen}
Init == lists = <<>>
Next == Len(lists) < MaxLists /\ \E s \in Seqs : lists' = Append(lists, s)
Spec == Init /\ [][Next]_lists
RECURSIVE Prod(_)
Prod(ns) == IF ns = <<>> THEN 1 ELSE Head(ns) * Prod(Tail(ns))
Lens == [i \in DOMAIN lists |-> Len(lists[i])]
\* entry n-1 in mixed radix notation (last digit fastest) selects the values: exactly one entry per combination
Radix == LET p == Product(lists) IN
  /\ Len(p) = Prod(Lens)
  /\ \A n \in DOMAIN p : \A i \in DOMAIN lists :
       p[n][i] = lists[i][(((n - 1) \div Prod(SubSeq(Lens, i + 1, Len(lists)))) % Lens[i]) + 1]
FlatKeeps == LET p == Loops(lists, FALSE)
                 f == Loops(lists, TRUE) IN
  \A n \in DOMAIN p : [j \in DOMAIN f[n] |-> f[n][j].v] = Leaves(Node(p[n])) /\ \A j \in DOMAIN f[n] : f[n][j].k = "leaf"
\* of the combinations, no row is lost or kept twice, and first occurrences keep their order
UniqueOk == LET p == Product(lists) u == Unique(p) at(r) == CHOOSE n \in DOMAIN p : p[n] = r /\ \A m \in 1..(n - 1) : p[m] # r IN
  /\ {u[i] : i \in DOMAIN u} = {p[i] : i \in DOMAIN p}
  /\ \A i, j \in DOMAIN u : i < j => u[i] # u[j] /\ at(u[i]) < at(u[j])
Emit == (\A i \in DOMAIN lists : i < Len(lists) => Len(lists[i]) <= 1 \/ lists[i][1] # lists[i][2]) => PrintT("SC " \o ToJson(lists))
====
