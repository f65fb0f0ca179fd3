---- MODULE GridMC ----
(* All short histories of creating, updating and copying containers in every form. *)
EXTENDS Grid, Json
CONSTANTS MaxOps, MaxCont
VARIABLES st, hist
vars == <<st, hist>>
XF == {"axes", "grid", "loop", "points"}
Parts(f) == IF f = "points" THEN {"both"} ELSE {"both", "x", "y"}
\* concrete values: different for every operation
Val(n, k) == [i \in 1..n |-> 100 * k + ((i * 7) % 5) - (10 * (i % 2))]
ZV(n, m, k) == [i \in 1..n |-> [j \in 1..m |-> 1000 * k + 10 * i + j]]
K == Len(hist) + 1
Ev(op, t, f, part, zf, n, m) == [op |-> op, t |-> t, form |-> f, part |-> part, zform |-> zf, x |-> Val(n, K), y |-> Val(m, K + 20), z |-> IF zf = "none" THEN NoZ ELSE ZV(n, m, K)]
Do(ev) == st' = Post(st, ev) /\ hist' = Append(hist, ev)
New == \E f \in XF, zf \in {"none", "Z", "zz"}, nm \in {<<2, 3>>, <<1, 2>>} : Do(Ev("new", 0, f, "both", zf, nm[1], nm[2]))
Size(c) == <<Len(c.x), Len(c.y)>>
Upd == \E t \in DOMAIN st.c, f \in XF, zf \in {"none", "Z", "zz"}, nm \in {<<2, 3>>, <<3, 1>>} :
         \E part \in Parts(f) :
           /\ part = "both" \/ nm = Size(st.c[t])                 \* half a form keeps the size
           /\ zf # "none" \/ st.c[t].z = NoZ \/ nm = Size(st.c[t])  \* z has to fit
           /\ Do(Ev("upd", t, f, part, zf, nm[1], nm[2]))
UpdZ == \E t \in DOMAIN st.c, zf \in {"Z", "zz"} : LET s == Size(st.c[t]) IN Do([Ev("upd", t, "axes", "none", zf, s[1], s[2]) EXCEPT !.part = "none"])
Copy == \E t \in DOMAIN st.c : Do(Ev("copy", t, "axes", "none", "none", 1, 1))
Init == st = InitSt([n |-> 0]) /\ hist = <<>>
Next == Len(hist) < MaxOps /\ ((Len(st.c) < MaxCont /\ (New \/ (Copy /\ Len(st.c) > 0))) \/ Upd \/ UpdZ)
Spec == Init /\ [][Next]_vars
\* the forms determine the data
RoundTrip == \A k \in DOMAIN st.c : LET c == st.c[k] F == Forms(c) IN
  /\ Unloop(F.xx, F.yy, F.zz) = c
  /\ Data([i \in DOMAIN F.X |-> F.X[i][1]], F.Y[1], F.Z) = c
  /\ [i \in DOMAIN F.XY |-> F.XY[i][1]] = F.xx /\ [i \in DOMAIN F.XY |-> F.XY[i][2]] = F.yy
  /\ Len(F.xx) = F.nx * F.ny /\ (F.zz = <<>> \/ Len(F.zz) = Len(F.xx))
Strip(e) == [op |-> e.op, t |-> e.t, form |-> e.form, part |-> e.part, zform |-> e.zform, n |-> Len(e.x), m |-> Len(e.y)]
Emit == Len(hist) = MaxOps => PrintT("SC " \o ToJson([h |-> [i \in DOMAIN hist |-> Strip(hist[i])]]))
====
