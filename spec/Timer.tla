---- MODULE Timer ----
(* Tag timers (C35).  One clock reading sequence per tag; st[tag] is the
   sequence of the (at most two) readings of the current measurement. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == [tags |-> <<>>, silent |-> hdr.silent]   \* tags: tag -> readings (function)

Known(st, tag) == tag \in DOMAIN st.tags
Rd(st, tag) == IF Known(st, tag) THEN st.tags[tag] ELSE <<>>
With(st, tag, r) ==
  [st EXCEPT !.tags = [x \in (DOMAIN st.tags) \cup {tag} |-> IF x = tag THEN r ELSE st.tags[x]]]

AfterT(r, clk) == IF Len(r) = 2 THEN <<clk>> ELSE Append(r, clk)
AfterPt(r, clk) == IF Len(r) = 1 THEN Append(r, clk) ELSE r

Post(st, ev) ==
  CASE ev.op = "t" -> With(st, ev.tag, AfterT(Rd(st, ev.tag), ev.clk))
    [] ev.op = "pt" /\ Known(st, ev.tag) -> With(st, ev.tag, AfterPt(Rd(st, ev.tag), ev.clk))
    [] OTHER -> st

Duration(st, ev) == LET r == AfterPt(Rd(st, ev.tag), ev.clk) IN r[2] - r[1]

Bad(st, ev) ==
  CASE ev.op = "crash" -> {"C35:crash"}
    [] ev.op = "t" ->
         (IF ev.exc = "" THEN {} ELSE {"C35:start_stop_raises"})
         \cup (IF ev.nout = 0 THEN {} ELSE {"C35:start_stop_prints"})
    [] ev.op = "pt" ->
         IF ~Known(st, ev.tag)
         THEN (IF ev.exc # "" THEN {} ELSE {"C35:unknown_tag_accepted"})
              \cup (IF ev.nout = 0 THEN {} ELSE {"C35:unknown_tag_printed"})
         ELSE IF ev.exc # "" THEN {"C35:print_raises"}
         ELSE IF st.silent THEN (IF ev.nout = 0 THEN {} ELSE {"C35:silent_prints"})
         ELSE (IF ev.nout = 1 THEN {} ELSE {"C35:one_line"})
              \cup (IF ev.nout = 1 /\ ev.dur # Duration(st, ev) THEN {"C35:duration"} ELSE {})
              \cup (IF ev.nout = 1 /\ ~(ev.hastag /\ ev.hasmsg) THEN {"C35:label"} ELSE {})
    [] ev.op = "p" ->
         IF ev.exc = "" /\ ev.nout = (IF st.silent THEN 0 ELSE 1) THEN {} ELSE {"C35:message"}
    [] OTHER -> {"unknown event"}
====
