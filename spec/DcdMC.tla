---- MODULE DcdMC ----
(* A writer appends words (4 bytes) record by record and may stop after any word.  Two reading
   strategies - dividing the remaining bytes by the frame size, and walking from marker to
   marker - agree on every file and on every prefix of it whether it is whole, and on the
   number of complete frames.  The header may claim any number of frames. *)
EXTENDS Dcd, Json
CONSTANTS MaxAt, MaxFr
VARIABLES nat, n, words, nset
vars == <<nat, n, words, nset>>
Total == Bytes(Recs(nat, n)) \div 4
Init == nat \in 1..MaxAt /\ n \in 0..MaxFr /\ words = 0 /\ nset \in 0..(MaxFr + 1)
Next == words < Total /\ words' = words + 1 /\ UNCHANGED <<nat, n, nset>>
Spec == Init /\ [][Next]_vars
F == [nat |-> nat, nset |-> nset, size |-> 4 * words]
\* walk: consume whole records, number of records consumed and bytes left
RECURSIVE Walk(_, _, _)
Walk(rs, left, k) == IF rs = <<>> \/ left < Head(rs) + 8 THEN <<k, left>> ELSE Walk(Tail(rs), left - Head(rs) - 8, k + 1)
W == Walk(Recs(nat, n), 4 * words, 0)
Agree == /\ HasHdr(F) = (W[1] >= 3)
         /\ HasHdr(F) => NF(F) = (W[1] - 3) \div 4
         /\ Whole(F) = (W[1] >= 3 /\ W[2] = 0 /\ (W[1] - 3) % 4 = 0)
Prefix == words = Total => Whole(F) /\ NF(F) = n
Emit == PrintT("SC " \o ToJson([nat |-> nat, n |-> n, words |-> words, nset |-> nset, total |-> Total]))
====
