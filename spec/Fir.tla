---- MODULE Fir ----
(* Digital filters (C44).
   A filter is designed for pass bands on the frequency axis 0 .. 1000 (1000 = Nyquist frequency, whatever its unit) and then
   applied to signals.  State: f = the filters designed so far, id -> [mode, cut, n (number of taps), taps (x 10^7), ...];
   a filter has no memory, so applying one changes nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == [f |-> <<>>]
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in DOMAIN s}
Modes == {"lowpass", "highpass", "bandpass", "bandstop"}

\* ideal response: does frequency x belong to a pass band
Ideal(mode, cut, x) ==
  CASE mode = "lowpass"  -> x <= cut[1]
    [] mode = "highpass" -> x >= cut[1]
    [] mode = "bandpass" -> cut[1] <= x /\ x <= cut[2]
    [] mode = "bandstop" -> x <= cut[1] \/ cut[2] <= x
\* a response which does not vanish at the Nyquist frequency needs an odd number of taps
NeedOdd(mode) == mode \in {"highpass", "bandstop"}
Taps(mode, n) == IF NeedOdd(mode) /\ n % 2 = 0 THEN n + 1 ELSE n
\* half width of the transition between the bands and the largest deviation outside of it (x 10^6)
Half(d) == IF d.width > 0 THEN d.width \div 2 + 2 ELSE 6000 \div d.n
Delta(d) == IF d.width = 0 THEN 10000 ELSE IF d.ripple >= 80 THEN 400 ELSE IF d.ripple >= 60 THEN 4000 ELSE IF d.ripple >= 50 THEN 12000 ELSE IF d.ripple >= 40 THEN 35000 ELSE 100000
Clear(d, x) == \A i \in DOMAIN d.cut : Abs(x - d.cut[i]) >= Half(d)
\* bands wide enough for the length of the filter
Wide(d) == LET e == <<0>> \o d.cut \o <<1000>> IN \A i \in 1..(Len(e) - 1) : e[i + 1] - e[i] >= 2 * Half(d)
Good(d) == d.mode \in Modes /\ (d.mode \in {"bandpass", "bandstop"} <=> Len(d.cut) = 2) /\ (d.ntaps > 0 \/ (d.ripple > 0 /\ d.width > 0))
\* Kaiser's estimate: enough taps for ripple (dB) and width, and hardly more:  (A - 7.95) / (2.285 pi width) + 1
KaiserOk(d) == LET need == (d.ripple * 100 - 795) * 10000 IN
  /\ 7179 * (d.n + 1) * d.width >= need
  /\ 7179 * (d.n - 4) * d.width <= need

DesignBad(ev) ==
  IF ~Good(ev) THEN (IF ev.exc # "" THEN {} ELSE {"C44:bad_filter_accepted"})
  ELSE IF ev.exc # "" THEN {"C44:design_raises_" \o ev.exc}
  ELSE (IF ev.n = Len(ev.taps) /\ (ev.ntaps > 0 => ev.n = Taps(ev.mode, ev.ntaps)) /\ (NeedOdd(ev.mode) => ev.n % 2 = 1) THEN {} ELSE {"C44:number_of_taps"})
  \cup (IF ev.ntaps > 0 \/ KaiserOk(ev) THEN {} ELSE {"C44:kaiser_length"})
  \cup (IF \A i \in DOMAIN ev.taps : Abs(ev.taps[i] - ev.taps[Len(ev.taps) + 1 - i]) <= 1 THEN {} ELSE {"C44:linear_phase"})
  \cup (IF Len(ev.w) = 512 /\ (\A i \in DOMAIN ev.w : ev.w[i] = i - 1) THEN {} ELSE {"C44:frequency_axis"})
  \* the response, measured by filtering sine waves, and the one reported
  \cup (IF \A g \in Range(ev.gains) : (Wide(ev) /\ Clear(ev, g[1])) => (IF Ideal(ev.mode, ev.cut, g[1]) THEN Abs(g[2] - 1000000) <= Delta(ev) ELSE g[2] <= Delta(ev))
        THEN {} ELSE {"C44:pass_and_stop_bands"})
  \* half of the amplitude is left at the edges
  \cup (IF Wide(ev) => \A i \in DOMAIN ev.edges : Abs(ev.edges[i] - 500000) <= 5000 + 2 * Delta(ev) THEN {} ELSE {"C44:cutoff"})
  \cup (IF \A h \in Range(ev.hs) : Abs(h[2] - h[3]) <= 5 THEN {} ELSE {"C44:reported_response"})

RECURSIVE Conv(_, _, _, _)
Conv(t, x, n, k) == IF k > Len(t) \/ k > n THEN 0 ELSE t[k] * x[n - k + 1] + Conv(t, x, n, k + 1)
RECURSIVE SumAbs(_)
SumAbs(x) == IF x = <<>> THEN 0 ELSE Abs(Head(x)) + SumAbs(Tail(x))
\* every channel along the axis is the causal convolution with the taps: shape kept, no memory, nothing before the signal
ApplyBad(d, ev) ==
  IF ev.exc # "" THEN {"C44:apply_raises_" \o ev.exc}
  ELSE IF ev.shape # ev.oshape \/ Len(ev.y) # Len(ev.x) THEN {"C44:shape"}
  ELSE (IF \A c \in DOMAIN ev.x : Len(ev.y[c]) = Len(ev.x[c]) /\ \A n \in DOMAIN ev.x[c] : Abs(ev.y[c][n] - Conv(d.taps, ev.x[c], n, 1)) <= SumAbs(ev.x[c]) + 1
        THEN {} ELSE {"C44:convolution"})
  \cup (IF ev.kept THEN {} ELSE {"C44:input_modified"})
\* the response to a unit impulse is the taps themselves (x 10^9)
ImpulseBad(d, ev) ==
  IF ev.exc # "" THEN {"C44:apply_raises_" \o ev.exc}
  ELSE IF \A n \in DOMAIN ev.y : ev.y[n] = (IF n > ev.pos /\ n - ev.pos <= d.n THEN d.taps9[n - ev.pos] ELSE 0) THEN {} ELSE {"C44:impulse_response"}

Post(st, ev) == IF ev.op = "design" /\ ev.exc = "" THEN [st EXCEPT !.f = [i \in DOMAIN st.f \cup {ev.id} |-> IF i = ev.id THEN ev ELSE st.f[i]]] ELSE st
Bad(st, ev) ==
  CASE ev.op = "design" -> DesignBad(ev)
    [] ev.op = "apply" -> ApplyBad(st.f[ev.id], ev)
    [] ev.op = "impulse" -> ImpulseBad(st.f[ev.id], ev)
    [] OTHER -> {"C44:crash"}
====
