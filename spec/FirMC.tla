---- MODULE FirMC ----
(* All filters on a coarse frequency grid, several in use at once: bands are complementary, widths and parity consistent. *)
EXTENDS Fir, Json
CONSTANTS Depth, Grid, EmitMod
VARIABLES hist, code
vars == <<hist, code>>
Init == hist = <<>> /\ code = 0
Designs == {[op |-> "design", mode |-> m, cut |-> c, ntaps |-> k[1], ripple |-> k[2], width |-> k[3]] :
              m \in Modes, c \in {<<a>> : a \in Grid} \cup {<<a, b>> : a \in Grid, b \in Grid}, k \in {<<21, 0, 0>>, <<34, 0, 0>>, <<75, 0, 0>>, <<0, 40, 120>>, <<0, 60, 160>>, <<0, 0, 0>>}}
Ds == {d \in Designs : Len(d.cut) = 1 \/ d.cut[1] < d.cut[2]}
Key(e) == IF e.op = "design" THEN Len(e.mode) * 7 + e.cut[1] + (IF Len(e.cut) = 2 THEN 3 * e.cut[2] ELSE 0) + e.ntaps * 5 + e.ripple ELSE 11 + e.id
Made == {i \in DOMAIN hist : hist[i].op = "design" /\ Good(hist[i])}
Next == /\ Len(hist) < Depth
        /\ \/ \E d \in Ds : (hist # <<>> => d.mode # hist[1].mode /\ d.ripple # 60 /\ d.ntaps # 75) /\ hist' = Append(hist, d)
           \/ \E i \in Made : hist' = Append(hist, [op |-> "apply", id |-> i])
        /\ code' = (code * 31 + Key(hist'[Len(hist')])) % 7919
Spec == Init /\ [][Next]_vars
D(e) == [e EXCEPT !.op = "design"] @@ [n |-> IF e.ntaps > 0 THEN Taps(e.mode, e.ntaps) ELSE 30]
Laws == \A i \in Made : LET d == D(hist[i]) IN
  /\ \A x \in {50 * j : j \in 0..20} : x \notin Range(d.cut) =>
       /\ Ideal("lowpass", d.cut, x) = ~Ideal("highpass", d.cut, x)
       /\ Len(d.cut) = 2 => Ideal("bandpass", d.cut, x) = ~Ideal("bandstop", d.cut, x)
       /\ Len(d.cut) = 2 => Ideal("bandpass", d.cut, x) = (Ideal("highpass", <<d.cut[1]>>, x) /\ Ideal("lowpass", <<d.cut[2]>>, x))
       \* mirroring the frequency axis swaps low and high
       /\ Ideal("lowpass", d.cut, x) = Ideal("highpass", [k \in DOMAIN d.cut |-> 1000 - d.cut[k]], 1000 - x)
  /\ Ideal(d.mode, d.cut, 1000) = NeedOdd(d.mode)
  \* in wide bands every band has a frequency which is clear of all edges
  /\ Wide(d) => \A b \in BOOLEAN : \E x \in 0..1000 : Clear(d, x) /\ Ideal(d.mode, d.cut, x) = b
  /\ d.n % 2 = 1 \/ ~NeedOdd(d.mode) \/ d.ntaps = 0
Emit == (Len(hist) = Depth /\ code % EmitMod = 0) => PrintT("SC " \o ToJson(hist))
====
