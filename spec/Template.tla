---- MODULE Template ----
(* Template rendering (C04).  A template is a sequence of tokens
   [t |-> "lit" | "ph", v |-> literal text or key, ph |-> placeholder text]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(hdr) == 0
Post(st, ev) == st
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
TokText(tok) == IF tok.t = "lit" THEN tok.v ELSE tok.ph
Source(toks) == Concat([i \in DOMAIN toks |-> TokText(toks[i])])

Has(dct, k) == \E i \in DOMAIN dct : dct[i].k = k
Val(dct, k) == dct[CHOOSE i \in DOMAIN dct : dct[i].k = k]
\* text of a value as it must appear; floats are compared by value: the driver replaces the
\* number it finds between the marks by its hexadecimal form, hex is that of the given value
Text(v) == v.txt
Selected(ev) == IF ev.sel = "all" THEN {ev.dct[i].k : i \in DOMAIN ev.dct} ELSE Range(ev.keys)
RenderWith(toks, dct, sel) ==
  Concat([i \in DOMAIN toks |-> IF toks[i].t = "ph" /\ toks[i].v \in sel /\ Has(dct, toks[i].v)
                                THEN Text(Val(dct, toks[i].v)) ELSE TokText(toks[i])])
Expected(ev) == IF ev.sel = "none" THEN Source(ev.toks) ELSE RenderWith(ev.toks, ev.dct, Selected(ev))

Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C04:crash"}
  ELSE IF ev.exc # "" THEN {"C04:" \o ev.op \o "_raises_" \o ev.exc}
  ELSE (IF ev.out = Expected(ev) THEN {} ELSE {"C04:rendered_text"})
       \cup (IF ev.src = ev.src0 THEN {} ELSE {"C04:template_changed"})
       \cup (IF ev.op = "write" /\ ev.listing # <<ev.name>> THEN {"C04:files_written"} ELSE {})
       \cup (IF ev.op = "freplace" /\ ev.bak # "" /\ ev.bakc # Source(ev.toks) THEN {"C04:backup_copy"} ELSE {})
====
