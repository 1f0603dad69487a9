------------------------------ MODULE FilterText ------------------------------
(* Meaning of textual filter and sort expressions.  The state machine appends   *)
(* tokens to an expression; parse state is kept alongside.  An expression is     *)
(* then applied to a builder (alone or inside And(func)), more can follow, and   *)
(* the filter is rendered.                                                       *)
EXTENDS FilterSem

CONSTANTS Rules,      \* rule tokens: [text, key, col, op, v, conv, bad]
          MaxTok,     \* tokens per expression
          MaxExpr,    \* expressions per behaviour
          SortItems, MaxSort,
          Guided      \* TRUE: errors only at the end of an expression

VARIABLES mode,      \* "v1"/"v2" init, strict flag
          strict, phase, ps, text, ntok, group, keys, nexpr, hist, done, items, sorted
vars == <<mode, strict, phase, ps, text, ntok, group, keys, nexpr, hist, done, items, sorted>>

NewFrame == [ors |-> <<>>, pend |-> ""]
(* parse state: res in {"ok","syntax","unknown","conv"}; last token kind; open
   frames; run of connectors not yet followed by anything *)
Fresh == [res |-> "ok", which |-> "", last |-> "", frames |-> <<NewFrame>>, run |-> <<>>]

Join(f, o) ==
  IF f.ors = <<>> THEN [f EXCEPT !.ors = << <<o>> >>, !.pend = ""]
  ELSE IF f.pend = "or" THEN [f EXCEPT !.ors = Append(@, <<o>>), !.pend = ""]
  ELSE [f EXCEPT !.ors = [@ EXCEPT ![Len(@)] = Append(@, o)], !.pend = ""]
(* With absent rules in between, "a;absent,b" is a OR b and so is "a,absent;b":
   the conjunction that the absent rule leaves empty vanishes. *)
Connect(f, c) == IF f.ors = <<>> THEN f ELSE [f EXCEPT !.pend = IF @ = "or" THEN "or" ELSE c]

SetLast(s, fr, k) == [s EXCEPT !.frames = [@ EXCEPT ![Len(@)] = fr], !.last = k]
TopOf(s) == s.frames[Len(s.frames)]
Fail(s, r, w) == [s EXCEPT !.res = r, !.which = w]

FeedConn(s, c) ==  \* c: "and" / "or"
  IF s.res # "ok" THEN s
  ELSE IF s.last \in {"and", "or", "("} THEN Fail(s, "syntax", "")
  ELSE SetLast(s, Connect(TopOf(s), c), c)

FeedOther(s0, t) ==
  LET s == [FoldLeft(FeedConn, s0, s0.run) EXCEPT !.run = <<>>] IN
  IF s.res # "ok" THEN s
  ELSE IF t.t = "(" THEN [s EXCEPT !.frames = Append(@, NewFrame), !.last = "("]
  ELSE IF t.t = ")" THEN
       IF s.last = "(" \/ Len(s.frames) = 1 THEN Fail(s, "syntax", "")
       ELSE LET outer == s.frames[Len(s.frames) - 1]  inner == TopOf(s)
                f == IF inner.ors = <<>> THEN outer ELSE Join(outer, [g |-> inner.ors])
            IN [s EXCEPT !.frames = Append(SubSeq(s.frames, 1, Len(s.frames) - 2), f), !.last = ")"]
  ELSE \* a rule
       IF s.last \in {")", "rule"} \/ t.bad THEN Fail(s, "syntax", "")
       ELSE IF t.col = "" THEN IF strict THEN Fail(s, "unknown", t.key) ELSE [s EXCEPT !.last = "rule"]
       ELSE IF t.conv = "fail" /\ mode = "v2" THEN Fail(s, "conv", "")
       ELSE LET v == IF t.conv = "inc" /\ mode = "v2" THEN (IF t.v = NULL THEN 1 ELSE t.v + 1) ELSE t.v
            IN SetLast(s, Join(TopOf(s), [p |-> [k |-> "cmp", how |-> "fql", col |-> t.col, op |-> t.op, v |-> v]]), "rule")

(* ";" and "," at either end of an expression are ignored. *)
Feed(s, t) == IF t.t \in {";", ","}
              THEN IF s.last = "" THEN s
                   ELSE [s EXCEPT !.run = Append(@, IF t.t = ";" THEN "and" ELSE "or")]
              ELSE FeedOther(s, t)
AtEnd(s) == IF s.res = "ok" /\ Len(s.frames) > 1 THEN Fail(s, "syntax", "") ELSE s

Init == /\ mode \in {"v1", "v2"} /\ strict \in BOOLEAN
        /\ phase = "idle" /\ ps = Fresh /\ text = "" /\ ntok = 0
        /\ items = <<>> /\ sorted = <<>> /\ group = <<>> /\ keys = <<>> /\ nexpr = 0 /\ done = FALSE
        /\ hist = << [op |-> "init", m |-> mode] >> \o (IF strict THEN << [op |-> "strict"] >> ELSE <<>>)

Punct == { [t |-> x, text |-> x] : x \in {"(", ")", ";", ","} }
Tokens == Punct \cup Rules

Token(t) == /\ ~done /\ phase \in {"idle", "expr"} /\ nexpr < MaxExpr /\ ntok < MaxTok
            /\ ps.res = "ok"
            /\ ps' = Feed(ps, t)
            /\ (Guided => (ps'.res = "ok" \/ ntok + 1 = MaxTok))
            /\ text' = text \o t.text /\ ntok' = ntok + 1 /\ phase' = "expr"
            /\ UNCHANGED <<mode, strict, group, keys, nexpr, hist, done, items, sorted>>

(* Apply the expression: the first one directly, later ones inside And(func). *)
Apply == /\ ~done /\ phase = "expr"
         /\ LET s == AtEnd(ps)
                ev == << [op |-> "fql", text |-> text, res |-> s.res, which |-> s.which] >>
                evs == IF nexpr = 0 THEN ev ELSE << [op |-> "open", c |-> "and"] >> \o ev \o << [op |-> "close"] >>
                g == s.frames[1].ors
                f == [ors |-> group, pend |-> ""]
            IN /\ hist' = hist \o evs
               /\ group' = IF s.res # "ok" \/ g = <<>> THEN group
                           ELSE IF nexpr = 0 THEN g ELSE Join(f, [g |-> g]).ors
               /\ done' = (s.res # "ok")
         /\ nexpr' = nexpr + 1 /\ phase' = "idle" /\ ps' = Fresh /\ text' = "" /\ ntok' = 0
         /\ UNCHANGED <<mode, strict, keys, items, sorted>>

(* ----------------------------------------------------------------- sorting -- *)
RECURSIVE SortKeysOf(_)
SortKeysOf(its) ==
  IF its = <<>> THEN <<>>
  ELSE LET it == Head(its) IN
       (IF it.col = "" THEN <<>>
        ELSE << [col |-> it.col, desc |-> it.desc, nf |-> IF mode = "v2" THEN FALSE ELSE it.desc] >>) \o SortKeysOf(Tail(its))
RECURSIVE JoinText(_)
JoinText(its) == IF its = <<>> THEN "" ELSE IF Len(its) = 1 THEN its[1].text
                   ELSE its[1].text \o "," \o JoinText(Tail(its))
SortTok(it) == /\ ~done /\ phase \in {"idle", "sort"} /\ Len(sorted) = 0 /\ Len(items) < MaxSort
               /\ items' = Append(items, it) /\ phase' = "sort"
               /\ UNCHANGED <<mode, strict, ps, text, ntok, group, keys, nexpr, hist, done, sorted>>
Sort == /\ ~done /\ phase = "sort"
        /\ LET unk == SelectSeq(items, LAMBDA it : it.key # "" /\ it.col = "")
               res == IF strict /\ unk # <<>> THEN "unknown" ELSE "ok"
           IN /\ hist' = Append(hist, [op |-> "sort", text |-> JoinText(items), res |-> res,
                                        which |-> IF res = "ok" THEN "" ELSE unk[1].key])
              /\ done' = (res # "ok")
              /\ keys' = IF res = "ok" THEN keys \o SortKeysOf(items) ELSE keys
        /\ sorted' = items /\ items' = <<>> /\ phase' = "idle"
        /\ UNCHANGED <<mode, strict, ps, text, ntok, group, nexpr>>

Finish == /\ ~done /\ phase = "idle" /\ done' = TRUE
          /\ hist' = Append(hist, [op |-> "render", pos |-> 0, obs |-> Observation(group, keys, 0, 0)])
          /\ UNCHANGED <<mode, strict, phase, ps, text, ntok, group, keys, nexpr, items, sorted>>

Next == (\E t \in Tokens : Token(t)) \/ Apply \/ (\E it \in SortItems : SortTok(it)) \/ Sort \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties -- *)
RECURSIVE WellFormed(_)
WellFormed(g) == \A i \in 1..Len(g) : /\ Len(g[i]) > 0
                   /\ \A j \in 1..Len(g[i]) : "g" \in DOMAIN g[i][j] => g[i][j].g # <<>> /\ WellFormed(g[i][j].g)
TreeWellFormed == WellFormed(group)
(* In strict mode nothing unknown is ever silently dropped. *)
StrictNeverDrops == (strict /\ ps.res = "ok") => ps.which = ""
Emit == done => PrintT("TRACE " \o ToJson(hist))
=============================================================================
