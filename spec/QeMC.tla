---- MODULE QeMC ----
(* A phonon file written q-point by q-point, mode by mode, atom by atom as a sequence of line kinds and read back
   by collecting the lines of each kind and regrouping them; k-paths built segment by segment. *)
EXTENDS Qe, Json
CONSTANTS MaxQ, MaxAt, EmitMod
VARIABLES kind, nq, nat, lines, pc, path, seg, opt
vars == <<kind, nq, nat, lines, pc, path, seg, opt>>
Kinds == {"modes", "dyn", "dynmat", "freq"}
NM == 3 * nat
\* value of line number n of its kind
Ln(k, n) == [k |-> k, v |-> n]
Init == kind = "none" /\ nq = 1 /\ nat = 1 /\ lines = <<>> /\ pc = "start" /\ path = <<>> /\ seg = 0 /\ opt = 0
Choose == /\ pc = "start" /\ kind' \in Kinds /\ nq' \in (IF kind' = "dynmat" THEN {1} ELSE 1..MaxQ) /\ nat' \in 1..MaxAt /\ opt' \in 0..5 /\ pc' = "write" /\ UNCHANGED <<lines, path, seg>>
NumOf(k) == Len(SelectSeq(lines, LAMBDA x : x.k = k))
\* next line to write
Write == /\ pc = "write"
         /\ LET q == NumOf("q")  w == NumOf("w")  v == NumOf("v") IN
            IF v < w * nat THEN lines' = Append(lines, Ln("v", v + 1)) /\ pc' = pc
            ELSE IF w < q * NM THEN lines' = Append(lines, Ln("w", w + 1)) /\ pc' = pc
            ELSE IF q < nq THEN lines' = Append(lines, Ln("q", q + 1)) /\ pc' = pc
            ELSE lines' = lines /\ pc' = "read"
         /\ UNCHANGED <<kind, nq, nat, path, seg, opt>>
PathStart == pc = "start" /\ pc' = "path" /\ \E p \in {0, 1, 3} : path' = <<<<p>>>> /\ UNCHANGED <<kind, nq, nat, lines, seg, opt>>
PathStep == pc = "path" /\ Len(path) < 4 /\ \E p \in {0, 2, 3} : path' = Append(path, <<p>>) /\ seg' \in 1..3 /\ UNCHANGED <<kind, nq, nat, lines, pc, opt>>
Next == Choose \/ Write \/ PathStart \/ PathStep
Spec == Init /\ [][Next]_vars
Of(k) == [i \in 1..NumOf(k) |-> SelectSeq(lines, LAMBDA x : x.k = k)[i].v]
\* regrouping the collected lines gives each q-point its own modes and each mode its own vectors
Pos(k, n) == CHOOSE i \in DOMAIN lines : lines[i] = Ln(k, n)
Regroup == pc = "read" => /\ NumOf("q") = nq /\ NumOf("w") = nq * NM /\ NumOf("v") = nq * NM * nat
   /\ \A q \in 1..nq : \A m \in 1..NM : LET w == (q - 1) * NM + m IN
        /\ Pos("w", w) > Pos("q", q) /\ (q < nq => Pos("w", w) < Pos("q", q + 1))
        /\ \A a \in 1..nat : LET v == (w - 1) * nat + a IN Pos("v", v) > Pos("w", w) /\ (w < nq * NM => Pos("v", v) < Pos("w", w + 1))
\* path laws: vertices in order, N points per segment, equal steps within a segment
PathLaw == (pc = "path" /\ seg > 0) => LET P == PathPts(path, seg) IN
   /\ Len(P) = (Len(path) - 1) * seg + 1
   /\ \A i \in DOMAIN path : P[(i - 1) * seg + 1] = <<seg * path[i][1]>>
   /\ \A i \in 1..Len(path) - 1 : \A k \in 1..seg - 1 : P[(i - 1) * seg + k + 1][1] - P[(i - 1) * seg + k][1] = path[i + 1][1] - path[i][1]
Emit == /\ (pc = "read") => PrintT("SC " \o ToJson([kind |-> kind, nq |-> nq, nat |-> nat, opt |-> opt]))
        /\ (pc = "path" /\ seg > 0 /\ (Len(path) * 7 + seg + path[1][1] + 3 * path[Len(path)][1]) % EmitMod = 0) => PrintT("SC " \o ToJson([kind |-> "path", nq |-> seg, nat |-> Len(path), opt |-> path[1][1] + 5 * path[Len(path)][1]]))
====
