---- MODULE Plot ----
(* Plot containers (C46).
   State: the plots made so far. A plot is [proj, size, clean, axes]; an axis is
     [lines, bars : labels in the order drawn ("" = none), leg : the labels of its legend or <<"-">>, col : its colours, curves : 3d curves].
   kind "grid" plots have extra axis lines instead: [loc, label, off, ticks, sharex, sharey] and the position of the host axis.
   Every event carries an image of all plots after the call (ev.img), so that a call which touches another plot or axis is seen. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
InitSt(hdr) == <<>>

Plain == [xl |-> 0, yl |-> 0, xt |-> 0, yt |-> 0, left |-> 0, right |-> 0, bottom |-> 0, top |-> 0]
NewAx == [lines |-> <<>>, bars |-> <<>>, leg |-> <<"-">>, col |-> Plain, curves |-> <<>>]
NewPlot(proj, size, clean) == [kind |-> "plot", proj |-> proj, size |-> size, clean |-> clean, axes |-> <<NewAx>>, extra |-> <<>>, pos |-> <<>>]
\* margins of a new figure, in thousandths
NewGrid == [kind |-> "grid", proj |-> "2d", size |-> <<>>, clean |-> 0, axes |-> <<NewAx>>, extra |-> <<>>,
            pos |-> [left |-> 125, bottom |-> 110, right |-> 900, top |-> 880]]

Shown(s) == SelectSeq(s, LAMBDA x : x # "")
\* the legend entries of an axis: its lines, then its bars
Entries(a) == Shown(a.lines) \o Shown(a.bars)
Collect(plot, names) == Flat([i \in DOMAIN names |-> Entries(plot.axes[names[i]])])

ColAx(c, ev) ==
  LET a == IF ev.axis = "x" THEN [c EXCEPT !.xl = ev.color, !.xt = ev.color] ELSE [c EXCEPT !.yl = ev.color, !.yt = ev.color]
      b == IF ev.spine = "" THEN a ELSE [a EXCEPT ![ev.spine] = ev.color]
  IN IF ev.hide = "" THEN b ELSE [b EXCEPT ![ev.hide] = 9]

\* curves x-z stacked along y; x and z are single columns or one column per curve
Col(m, j) == IF Len(m) = 1 THEN m[1] ELSE m[j]
Curves(ev) == [j \in DOMAIN ev.y |-> <<Col(ev.x, j), [i \in DOMAIN Col(ev.x, j) |-> ev.y[j]], Col(ev.z, j)>>]

MoveIn(pos, loc, w) == [pos EXCEPT ![loc] = IF loc \in {"top", "right"} THEN @ - w ELSE @ + w]
OffsetOf(ev) == CASE ev.loc = "top" -> <<0, ev.off>> [] ev.loc = "bottom" -> <<0, -ev.off>> [] ev.loc = "left" -> <<-ev.off, 0>> [] OTHER -> <<ev.off, 0>>

\* a dispersion: one curve per band over the length of the path, vertical lines and labels at the special points; the dos lies on its side
RECURSIVE PathNorm(_, _)
Step(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + Abs(a[3] - b[3])     \* points differ along one axis only
PathNorm(ks, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<Step(ks[1], <<0, 0, 0>>)>> ELSE LET q == PathNorm(ks, n - 1) IN Append(q, q[n - 1] + Step(ks[n], ks[n - 1]))
Coords(k) == "|[" \o ToString(k[1]) \o "," \o ToString(k[2]) \o "," \o ToString(k[3]) \o "]"
Disp(ev) ==
  LET N == PathNorm(ev.ks, Len(ev.ks)) IN
  [kind |-> "disp", proj |-> "2d", size |-> <<>>, clean |-> 0, axes |-> <<>>, pos |-> <<>>,
   extra |-> <<[bands |-> [i \in DOMAIN ev.freqs |-> <<ev.path, ev.freqs[i]>>], ticks |-> N,
                verts |-> [i \in DOMAIN N |-> IF ev.ylim = <<>> THEN <<N[i]>> ELSE <<N[i], ev.ylim[1], ev.ylim[2]>>],
                labels |-> [i \in DOMAIN N |-> CASE ev.coords = "" -> ev.syms[i] [] ev.coords = "cart" -> ev.syms[i] \o Coords(ev.ks[i]) [] OTHER -> ev.syms[i] \o Coords(ev.frac[i])],
                xlim |-> <<ev.path[1], ev.path[Len(ev.path)]>>, ylim |-> ev.ylim,
                dos |-> IF ev.dos = <<>> THEN <<>> ELSE <<[i \in DOMAIN ev.dos |-> ev.dos[i][2]], [i \in DOMAIN ev.dos |-> ev.dos[i][1]]>>]>>]
Refuse(ev) == ev.op = "bad"
Post(st, ev) ==
  CASE ev.op = "new" -> st \o [i \in 1..ev.n |-> NewPlot(ev.proj, ev.size, ev.clean)]
    [] ev.op = "twin" -> [st EXCEPT ![ev.p].axes = Append(@, NewAx)]
    [] ev.op = "line" -> IF ev.bar THEN [st EXCEPT ![ev.p].axes[ev.a].bars = Append(@, ev.label)]
                         ELSE [st EXCEPT ![ev.p].axes[ev.a].lines = Append(@, ev.label)]
    [] ev.op = "legend" -> [st EXCEPT ![ev.p].axes[ev.a].leg = IF ev.names = <<>> THEN Entries(st[ev.p].axes[ev.a]) ELSE Collect(st[ev.p], ev.names)]
    [] ev.op = "color" -> [st EXCEPT ![ev.p].axes[ev.a].col = ColAx(@, ev)]
    [] ev.op = "lines3" -> [st EXCEPT ![ev.p].axes[1].curves = @ \o Curves(ev), ![ev.p].axes[1].lines = @ \o [j \in DOMAIN ev.y |-> ""]]
    [] ev.op = "grid" -> Append(st, NewGrid)
    [] ev.op = "disp" -> Append(st, Disp(ev))
    [] ev.op = "axis" -> [st EXCEPT ![ev.p].extra = Append(@, [loc |-> ev.loc, label |-> ev.label, off |-> OffsetOf(ev), ticks |-> ev.ticks, sharex |-> ev.sharex, sharey |-> ev.sharey]),
                                    ![ev.p].pos = MoveIn(@, ev.loc, ev.ws)]
    [] OTHER -> st

\* the shade of step i of n goes evenly from 0 to 1 (in millionths)
ShadeOk(v, i, n) == Abs((v * (n - 1)) - (i * 1000000)) <= n

Diff(want, img) ==
  IF Len(img) # Len(want) THEN {"C46:plots"}
  ELSE UNION {LET w == want[i] g == img[i] IN
       IF w = g THEN {} ELSE
         (IF [k \in {"kind", "proj", "size"} |-> w[k]] = [k \in {"kind", "proj", "size"} |-> g[k]] THEN {} ELSE {"C46:figure"})
    \cup (IF w.clean = g.clean THEN {} ELSE {"C46:clean_background"})
    \cup (IF w.extra = g.extra /\ w.pos = g.pos THEN {} ELSE {IF w.kind = "disp" THEN "C46:dispersion" ELSE "C46:extra_axis"})
    \cup (IF Len(w.axes) # Len(g.axes) THEN {"C46:axes"} ELSE
          UNION {LET a == w.axes[j] b == g.axes[j] IN
                 (IF a.lines = b.lines /\ a.bars = b.bars THEN {} ELSE {"C46:lines"})
            \cup (IF a.leg = b.leg THEN {} ELSE {"C46:legend"})
            \cup (IF a.col = b.col THEN {} ELSE {"C46:colours"})
            \cup (IF a.curves = b.curves THEN {} ELSE {"C46:curves"}) : j \in DOMAIN w.axes})
       : i \in DOMAIN want}

Bad(st, ev) ==
  IF Refuse(ev) THEN (IF ev.exc # "" /\ ev.img = st THEN {} ELSE {"C46:not_refused"})
  ELSE IF ev.exc # "" THEN {"C46:" \o ev.op \o "_" \o ev.exc}
  ELSE Diff(Post(st, ev), ev.img)
  \cup (CASE ev.op = "new" -> IF ev.keys = ev.names /\ ev.own THEN {} ELSE {"C46:plot_names"}
          [] ev.op = "twin" -> {}
          \* the labels and handles of all axes asked for, in order, each handle with its own label
          [] ev.op = "collect" -> LET w == Collect(st[ev.p], ev.names) IN IF ev.labels = w /\ ev.handles = w THEN {} ELSE {"C46:collected"}
          [] ev.op = "save" -> IF Range(ev.files) = {<<ev.exts[i], ev.exts[i]>> : i \in DOMAIN ev.exts} /\ ev.dims = ev.wantdims THEN {} ELSE {"C46:saved_files"}
          [] ev.op = "shade" -> IF /\ Len(ev.list) = ev.n /\ Len(ev.one) = ev.n
                                   /\ \A i \in DOMAIN ev.list : ShadeOk(ev.list[i], i - 1, ev.n) /\ ShadeOk(ev.one[i], i - 1, ev.n)
                                THEN {} ELSE {"C46:shades"}
          [] ev.op = "disp" -> IF ev.same /\ ev.kept THEN {} ELSE {"C46:dispersion_result"}
          [] ev.op = "axis" -> IF ev.same /\ ev.named THEN {} ELSE {"C46:extra_axis_result"}
          [] OTHER -> {})
====
