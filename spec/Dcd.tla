---- MODULE Dcd ----
(* Binary DCD trajectories (C27).  A file is a sequence of Fortran records (a length marker of 4
   bytes before and after each): 84 (header), 164 (titles), 4 (natoms), then per frame 48 (the
   cell) and three times 4*natoms (x, y, z).
     f.nat    atoms;  f.fr  frames, each [cc (a, b, c in 1/8, then alpha, beta, gamma as stored in 1/1000), x (3*nat in 1/8)]
     f.nset   the number of frames claimed by the header
     f.size   bytes in the file (the writer may have been stopped anywhere); -1 : no file
   Readers: np (numpy), ref (python reference), f (Fortran, walks the file), fh (Fortran, trusts the header). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Iff(c, s) == IF c THEN {} ELSE {s}
RECURSIVE Cat(_), Sum(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
None == [s |-> <<-1>>, d |-> <<>>]
InitSt(hdr) == [f |-> [size |-> -1]]
\* the layout as records
HdrRecs == <<84, 164, 4>>
FrRecs(nat) == <<48, 4 * nat, 4 * nat, 4 * nat>>
Bytes(recs) == Sum([i \in DOMAIN recs |-> recs[i] + 8])
Recs(nat, n) == HdrRecs \o Cat([i \in 1..n |-> FrRecs(nat)])
HDR == Bytes(HdrRecs)
FS(nat) == Bytes(FrRecs(nat))
HasHdr(f) == f.size >= HDR
NF(f) == IF HasHdr(f) THEN (f.size - HDR) \div FS(f.nat) ELSE 0       \* complete frames
Whole(f) == HasHdr(f) /\ (f.size - HDR) % FS(f.nat) = 0
\* what a reader must do : "ok" n frames, "reject", or either
Want(f, rd) == IF rd = "fh" THEN f.nset ELSE NF(f)
Data(f, n, ccf) == [cc |-> [s |-> <<n, 6>>, d |-> Cat([t \in 1..n |-> f.fr[t].cc])], co |-> [s |-> <<n, f.nat, 3>>, d |-> Cat([t \in 1..n |-> f.fr[t].x])]]
MustRead(f, rd) == Whole(f) /\ Want(f, rd) \in 1..NF(f)
\* a truncated file: the reference and the Fortran reader may return its complete frames (complete
\* up to the closing marker of the last record, for Fortran); the numpy reader must reject it
NFp(f) == (f.size - HDR + 4) \div FS(f.nat)
MayWant(f, rd) == IF rd = "f" THEN NFp(f) ELSE Want(f, rd)
MayRead(f, rd) == HasHdr(f) /\ rd \in {"ref", "f", "fh"} /\ MayWant(f, rd) \in 1..(IF rd = "ref" THEN NF(f) ELSE NFp(f))
Same(f, n, o) == LET D == Data(f, n, 0) IN o.cc = D.cc /\ o.co = D.co
Read(f, ev) ==
  IF MustRead(f, ev.rd) THEN
     IF ev.exc # "" THEN {"C27:fails_" \o ev.rd}
     ELSE Iff(ev.o.co = Data(f, Want(f, ev.rd), 0).co, "C27:coords_" \o ev.rd) \cup Iff(ev.o.cc = Data(f, Want(f, ev.rd), 0).cc, "C27:cryst_" \o ev.rd)
          \cup Iff(ev.o.range, "C27:angle_range_" \o ev.rd)
  ELSE IF ev.exc # "" THEN {}
  ELSE IF MayRead(f, ev.rd) THEN Iff(Same(f, MayWant(f, ev.rd), ev.o), "C27:misread_" \o ev.rd)
  ELSE Iff(Want(f, ev.rd) = 0 /\ (Whole(f) \/ ev.rd \in {"ref"}) /\ HasHdr(f) /\ ev.o.co.d = <<>> /\ ev.o.cc.d = <<>>, "C27:accepted_" \o ev.rd)
Num(n) == [s |-> <<>>, d |-> <<n>>]
Attr(f, a) ==
  IF f.size = -1 THEN None
  ELSE CASE a = "natoms" -> Num(f.nat) [] a = "nstep" -> Num(NF(f))
         [] a = "coords" -> Data(f, NF(f), 0).co [] a = "cryst_const" -> Data(f, NF(f), 0).cc
         [] OTHER -> None       \* cell, volume : never taken from text files next to the dcd file
Get(f, ev) ==
  IF f.size = -1 \/ (Whole(f) /\ NF(f) > 0) THEN IF ev.exc # "" THEN {"C27:parser_fails_" \o ev.a} ELSE Iff(ev.o = Attr(f, ev.a), "C27:parser_" \o ev.a)
  ELSE IF ev.a \in {"cell", "volume"} THEN {}
  ELSE Iff(ev.exc # "" \/ (Whole(f) /\ NF(f) = 0 /\ ev.o.d = Attr(f, ev.a).d), "C27:parser_accepted_" \o ev.a)
Post(st, ev) == IF ev.op = "file" THEN [f |-> ev.f] ELSE st
Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C27:crash"}
    [] ev.op = "file" -> {}
    [] ev.op = "hdr" -> IF HasHdr(st.f) THEN IF ev.exc # "" THEN {"C27:header_fails"} ELSE Iff(ev.nat = st.f.nat /\ ev.nset = st.f.nset /\ ev.size = HDR /\ ev.dt = st.f.dt, "C27:header")
                        ELSE Iff(ev.exc # "", "C27:header_accepted")
    [] ev.op = "read" -> Read(st.f, ev)
    [] ev.op = "get" -> Get(st.f, ev)
    [] OTHER -> {"C27:unknown"}
====
