---- MODULE TemplateMC ----
(* Checks that rendering is well defined: replacing placeholders one after the other in any
   order, on the character level, gives the same text as simultaneous replacement, for all
   small templates; and that unselected text is untouched.  Emits every case. *)
EXTENDS Template, Json
CONSTANTS MaxLen
VARIABLES toks, sel, keys
vars == <<toks, sel, keys>>
Lit(s) == [t |-> "lit", v |-> s, ph |-> ""]
Ph(k, p) == [t |-> "ph", v |-> k, ph |-> p]
Alphabet == {Lit("a"), Lit("\n"), Lit("XX"), Ph("ka", "XXXKA"), Ph("kb", "XXXKB")}
Dct == << [k |-> "ka", txt |-> "7"], [k |-> "kb", txt |-> "x a"] >>
Init == toks = <<>> /\ sel \in {"all", "keys", "none"} /\ keys \in IF sel = "keys" THEN {<<"ka">>, <<"kb">>, <<"kb", "ka">>} ELSE {<<>>}
\* a literal XX directly before a placeholder would shift it: excluded like any overlapping placeholder
Next == Len(toks) < MaxLen /\ \E t \in Alphabet :
          /\ ~(toks # <<>> /\ toks[Len(toks)] = Lit("XX") /\ t \in {Lit("XX")})
          /\ toks' = Append(toks, t) /\ UNCHANGED <<sel, keys>>
Spec == Init /\ [][Next]_vars
\* character-level sequential replacement
Chars == [c \in {"XXXKA"} |-> <<"X", "X", "X", "K", "A">>] @@ [c \in {"XXXKB"} |-> <<"X", "X", "X", "K", "B">>]
         @@ [c \in {"a"} |-> <<"a">>] @@ [c \in {"\n"} |-> <<"\n">>] @@ [c \in {"XX"} |-> <<"X", "X">>]
         @@ [c \in {"7"} |-> <<"7">>] @@ [c \in {"x a"} |-> <<"x", " ", "a">>]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SrcC(ts) == Flat([i \in DOMAIN ts |-> Chars[TokText(ts[i])]])
RECURSIVE Replace(_, _, _)
Replace(s, p, v) == IF Len(s) < Len(p) THEN s
  ELSE IF SubSeq(s, 1, Len(p)) = p THEN v \o Replace(SubSeq(s, Len(p) + 1, Len(s)), p, v)
  ELSE <<s[1]>> \o Replace(Tail(s), p, v)
Ev == [sel |-> sel, keys |-> keys, dct |-> Dct, toks |-> toks]
RenderC(ts, S) == Flat([i \in DOMAIN ts |-> IF ts[i].t = "ph" /\ ts[i].v \in S
                                             THEN Chars[Val(Dct, ts[i].v).txt] ELSE Chars[TokText(ts[i])]])
StepR(s, k) == Replace(s, Chars[IF k = "ka" THEN "XXXKA" ELSE "XXXKB"], Chars[Val(Dct, k).txt])
S == IF sel = "none" THEN {} ELSE Selected(Ev)
RA(s) == IF "ka" \in S THEN StepR(s, "ka") ELSE s
RB(s) == IF "kb" \in S THEN StepR(s, "kb") ELSE s
OrderFree == RA(RB(SrcC(toks))) = RenderC(toks, S) /\ RB(RA(SrcC(toks))) = RenderC(toks, S)
Emit == (Len(toks) >= 1) => PrintT("SC " \o ToJson([toks |-> toks, sel |-> sel, keys |-> keys, dct |-> Dct]))
====
