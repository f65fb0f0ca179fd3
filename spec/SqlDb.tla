---- MODULE SqlDb ----
(* SQLiteDB column operations and queries (C06).
   State: cur = default table ("" if none); tabs: table -> [hdr |-> seq of <<name, type>>,
   rows |-> seq of [column -> tagged value], ids |-> their rowids, increasing; not 1, 2, .. once rows
   were deleted]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(hdr) == [cur |-> hdr.cur, tabs |-> <<>>]
Range(s) == {s[i] : i \in DOMAIN s}
HasT(st, t) == t \in DOMAIN st.tabs
T(st, ev) == IF ev.table = "" THEN st.cur ELSE ev.table
Cols(tab) == {tab.hdr[i][1] : i \in DOMAIN tab.hdr}
SetT(st, t, tab) == [st EXCEPT !.tabs = [x \in (DOMAIN st.tabs) \cup {t} |-> IF x = t THEN tab ELSE st.tabs[x]]]
\* largest rowid, position of a rowid
Last(tab) == IF tab.ids = <<>> THEN 0 ELSE tab.ids[Len(tab.ids)]
Pos(tab, i) == CHOOSE p \in DOMAIN tab.ids : tab.ids[p] = i
HasId(tab, i) == \E p \in DOMAIN tab.ids : tab.ids[p] = i
\* the addressed rows exist
Fits(tab, ev) == \A k \in DOMAIN ev.values : ev.start + k - 1 > Last(tab) \/ HasId(tab, ev.start + k - 1)
FixT(ty) == IF ty = "FLOAT" THEN "REAL" ELSE ty

AddCol(tab, col, ty) ==
  IF col \in Cols(tab) THEN tab
  ELSE [hdr |-> Append(tab.hdr, <<col, FixT(ty)>>),
        rows |-> [i \in DOMAIN tab.rows |-> [c \in Cols(tab) \cup {col} |-> IF c = col THEN "none" ELSE tab.rows[i][c]]],
        ids |-> tab.ids]
RECURSIVE AddCols(_, _)
AddCols(tab, hdr) == IF hdr = <<>> THEN tab ELSE AddCols(AddCol(tab, Head(hdr)[1], Head(hdr)[2]), Tail(hdr))

EmptyRow(tab) == [c \in Cols(tab) |-> "none"]
\* fill one value at rowid i, or behind the last row
FillAt(tab, col, i, v) ==
  IF i <= Last(tab) THEN [tab EXCEPT !.rows[Pos(tab, i)][col] = v]
  ELSE [tab EXCEPT !.rows = Append(@, [EmptyRow(tab) EXCEPT ![col] = v]), !.ids = Append(@, Last(tab) + 1)]
\* number of values that can be placed before refusal (Len(values)+1 if none refused)
NFill(tab, ev) ==
  LET bad == {k \in DOMAIN ev.values : ~ev.overwrite /\ ev.start + k - 1 <= Last(tab)
                                        /\ tab.rows[Pos(tab, ev.start + k - 1)][ev.col] # "none"}
  IN IF bad = {} THEN Len(ev.values) + 1 ELSE CHOOSE k \in bad : \A j \in bad : k <= j
RECURSIVE FillN(_, _, _, _)
FillN(tab, ev, k, n) ==       \* place values k..n
  IF k > n THEN tab
  ELSE LET i == ev.start + k - 1
           old == ev.oldlen IN
       IF i <= old \/ ev.extend
       THEN FillN(FillAt(tab, ev.col, IF i <= old THEN i ELSE Last(tab) + 1, ev.values[k]), ev, k + 1, n)
       ELSE FillN(tab, ev, k + 1, n)
Fill(tab, ev, n) == FillN(tab, [col |-> ev.col, values |-> ev.values, start |-> ev.start, extend |-> ev.extend,
                                oldlen |-> Last(tab)], 1, n)
FillRefused(tab, ev) == ev.col \notin Cols(tab) \/ (~ev.extend /\ ev.start > Last(tab)) \/ NFill(tab, ev) <= Len(ev.values)

\* makedb: the rows of ev.lists, in order, in a new table or behind the last row of an existing one, whose
\* columns they name with their types; mode "w" starts from an empty database
MakeTab(st, ev) == IF ev.mode = "a" /\ HasT(st, ev.table) THEN st.tabs[ev.table] ELSE [hdr |-> ev.hdr, rows |-> <<>>, ids |-> <<>>]
MakeRefused(st, ev) ==
  \/ Len(ev.lists[1]) # Len(ev.cols)
  \/ ~(\A i \in DOMAIN ev.hdr : \E j \in DOMAIN MakeTab(st, ev).hdr : MakeTab(st, ev).hdr[j] = ev.hdr[i])
MakeRow(tab, ev, k) == [c \in Cols(tab) |-> IF c \notin Range(ev.cols) THEN "none" ELSE IF c = ev.fcol THEN ev.fval
                                             ELSE ev.lists[k][CHOOSE i \in DOMAIN ev.cols : ev.cols[i] = c]]
Make(st, ev) ==
  LET tab == MakeTab(st, ev)
      new == [tab EXCEPT !.rows = @ \o [k \in DOMAIN ev.lists |-> MakeRow(tab, ev, k)],
                         !.ids = @ \o [k \in DOMAIN ev.lists |-> Last(tab) + k]] IN
  IF ev.mode = "w" THEN [st EXCEPT !.tabs = [t \in {ev.table} |-> new]] ELSE SetT(st, ev.table, new)

Refused(st, ev) ==
  LET t == T(st, ev) IN
  CASE ev.op \in {"fill", "attach", "add", "adds", "create"} /\ t = "" -> TRUE
    [] ev.op = "create" -> HasT(st, t)
    [] ev.op = "fill" -> FillRefused(st.tabs[t], ev)
    [] ev.op = "attach" -> (ev.col \in Cols(st.tabs[t]) /\ ~ev.overwrite) \/ FillRefused(AddCol(st.tabs[t], ev.col, ev.type), ev)
    [] ev.op = "makedb" -> MakeRefused(st, ev)
    [] OTHER -> FALSE

Apply(st, ev) ==
  LET t == T(st, ev) IN
  CASE ev.op = "create" -> SetT(st, t, [hdr |-> [i \in DOMAIN ev.hdr |-> <<ev.hdr[i][1], FixT(ev.hdr[i][2])>>], rows |-> <<>>, ids |-> <<>>])
    [] ev.op = "insert" -> SetT(st, t, [st.tabs[t] EXCEPT !.rows = Append(@, [c \in Cols(st.tabs[t]) |->
                              IF c \in Range(ev.cols) THEN ev.values[CHOOSE i \in DOMAIN ev.cols : ev.cols[i] = c] ELSE "none"]), !.ids = Append(@, Last(st.tabs[t]) + 1)])
    [] ev.op = "delete" -> LET tab == st.tabs[t]
                               keep(s) == [p \in 1..(Len(s) - 1) |-> IF p < Pos(tab, ev.start) THEN s[p] ELSE s[p + 1]] IN
         IF HasId(tab, ev.start) THEN SetT(st, t, [tab EXCEPT !.rows = keep(@), !.ids = keep(@)]) ELSE st
    [] ev.op = "add"    -> SetT(st, t, AddCol(st.tabs[t], ev.col, ev.type))
    [] ev.op = "adds"   -> SetT(st, t, AddCols(st.tabs[t], ev.hdr))
    [] ev.op = "fill"   -> SetT(st, t, Fill(st.tabs[t], ev, Len(ev.values)))
    [] ev.op = "attach" -> SetT(st, t, Fill(AddCol(st.tabs[t], ev.col, ev.type), ev, Len(ev.values)))
    [] ev.op = "makedb" -> Make(st, ev)
    [] ev.op = "set_table" -> [st EXCEPT !.cur = ev.table]
    [] OTHER -> st
\* contents allowed after a refused call: unchanged, or the part done before the refusal
Partial(st, ev) ==
  LET t == T(st, ev) IN
  {st} \cup
  (IF t = "" \/ ~HasT(st, t) THEN {} ELSE
   IF ev.op = "fill" /\ ev.col \in Cols(st.tabs[t]) /\ NFill(st.tabs[t], ev) <= Len(ev.values)
     THEN {SetT(st, t, Fill(st.tabs[t], ev, NFill(st.tabs[t], ev) - 1))}
   ELSE IF ev.op = "attach" /\ (ev.overwrite \/ ev.col \notin Cols(st.tabs[t]))
     THEN {SetT(st, t, AddCol(st.tabs[t], ev.col, ev.type))}
   ELSE {})

Obs(st, ev) == [st EXCEPT !.tabs = ev.tabs]
SameTabs(st, ev) == DOMAIN st.tabs = DOMAIN ev.tabs /\ \A t \in DOMAIN st.tabs : st.tabs[t] = ev.tabs[t]
Post(st, ev) ==
  IF Refused(st, ev)
  THEN (IF \E s \in Partial(st, ev) : SameTabs(s, ev) THEN CHOOSE s \in Partial(st, ev) : SameTabs(s, ev) ELSE st)
  ELSE Apply(st, ev)

Column(st, ev) == LET tab == st.tabs[T(st, ev)] IN [i \in DOMAIN tab.rows |-> tab.rows[i][ev.col]]
RECURSIVE FlattenS(_)
FlattenS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenS(Tail(ss))
RowVals(st, ev) == LET tab == st.tabs[T(st, ev)] IN
                   [i \in DOMAIN tab.rows |-> [j \in DOMAIN ev.cols |-> tab.rows[i][ev.cols[j]]]]
QueryBad(st, ev) ==
  CASE ev.q = "list1d" -> IF ev.exc = "" /\ ev.res = FlattenS(RowVals(st, ev)) THEN {} ELSE {"C06:get_list1d"}
    [] ev.q = "array1d" -> IF ev.exc = "" /\ ev.res = FlattenS(RowVals(st, ev)) THEN {} ELSE {"C06:get_array1d"}
    [] ev.q = "array" -> IF ev.exc = "" /\ ev.res = RowVals(st, ev) THEN {} ELSE {"C06:get_array"}
    [] ev.q = "dict" -> IF ev.exc = "" /\ Len(ev.keys) = Cardinality(Range(ev.cols)) /\ Range(ev.keys) = Range(ev.cols)
                           /\ \A k \in DOMAIN ev.keys : ev.res[k] = Column(st, [ev EXCEPT !.col = ev.keys[k]])
                        THEN {} ELSE {"C06:get_dict"}
    [] ev.q = "single" ->
         LET tab == st.tabs[T(st, ev)]
             hit == {i \in DOMAIN tab.rows : tab.ids[i] = ev.start \/ (ev.start = 0)} IN
         IF Cardinality(hit) = 1
         THEN (IF ev.exc = "" /\ ev.res = <<tab.rows[CHOOSE i \in hit : TRUE][ev.col]>> THEN {} ELSE {"C06:get_single"})
         ELSE (IF ev.exc # "" THEN {} ELSE {"C06:get_single_not_unique"})
    [] ev.q = "has_column" -> IF ev.exc = "" /\ ev.res = (ev.col \in Cols(st.tabs[T(st, ev)])) THEN {} ELSE {"C06:has_column"}
    [] ev.q = "has_table" -> IF ev.exc = "" /\ ev.res = HasT(st, ev.col) THEN {} ELSE {"C06:has_table"}
    [] ev.q = "header" -> IF ev.exc = "" /\ ev.res = st.tabs[T(st, ev)].hdr THEN {} ELSE {"C06:get_header"}
    [] ev.q = "maxrowid" -> LET n == Last(st.tabs[T(st, ev)]) IN
                            IF ev.exc = "" /\ (n > 0 => ev.res = n) THEN {} ELSE {"C06:get_max_rowid"}
    [] OTHER -> {"unknown query"}

Bad(st, ev) ==
  IF ev.op = "crash" THEN {"C06:crash"}
  ELSE IF ev.op = "query" THEN QueryBad(st, ev) \cup (IF SameTabs(st, ev) THEN {} ELSE {"C06:query_changes_data"})
  ELSE IF Refused(st, ev)
  THEN (IF ev.exc # "" THEN {} ELSE {"C06:" \o ev.op \o "_not_refused"})
       \cup (IF \E s \in Partial(st, ev) : SameTabs(s, ev) THEN {} ELSE {"C06:" \o ev.op \o "_refused_but_changed"})
  ELSE (IF ev.exc = "" THEN {} ELSE {"C06:" \o ev.op \o "_raises_" \o ev.exc})
       \cup (IF SameTabs(Apply(st, ev), ev) THEN {} ELSE {"C06:" \o ev.op \o "_content"})
       \cup (IF ev.op = "makedb" /\ ~ev.open THEN {"C06:makedb_closed"} ELSE {})
       \cup (IF ev.op = "makedb" /\ ev.seen # ev.tabs THEN {"C06:makedb_not_committed"} ELSE {})
====
