-------------------------------- MODULE Filter --------------------------------
(* State machine of the filter builder: one action per exported call.           *)
EXTENDS FilterSem

CONSTANTS MaxLen,      \* number of calls in a behaviour
          MaxDepth,    \* nesting of And(func)/Or(func)
          Preds,       \* the predicates a call may add
          SortKeys,    \* <<method, key>> choices for the ordering calls
          Nums,        \* integer arguments of Limit/Offset/Page
          Positions    \* starting positions for rendering

VARIABLES stack,   \* open groups, innermost last: [ors, pend, via]
          keys, limit, offset,
          hist, done
vars == <<stack, keys, limit, offset, hist, done>>

NewFrame(via) == [ors |-> <<>>, pend |-> "", via |-> via]
Init == /\ stack = <<NewFrame("")>> /\ keys = <<>> /\ limit = 0 /\ offset = 0 /\ hist = <<>> /\ done = FALSE

Top == stack[Len(stack)]
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]

(* An operand joins the current conjunction unless an OR is pending. *)
Join(f, o) ==
  IF f.ors = <<>> THEN [f EXCEPT !.ors = << <<o>> >>, !.pend = ""]
  ELSE IF f.pend = "or" THEN [f EXCEPT !.ors = Append(@, <<o>>), !.pend = ""]
  ELSE [f EXCEPT !.ors = [@ EXCEPT ![Len(@)] = Append(@, o)], !.pend = ""]

(* A connector needs something on its left; the first one given counts. *)
Connect(f, c) == IF f.ors = <<>> \/ f.pend # "" THEN f ELSE [f EXCEPT !.pend = c]

Log(e) == hist' = Append(hist, e)
Going == ~done /\ Len(hist) < MaxLen
Quiet == UNCHANGED <<keys, limit, offset, done>>

Pred(p) == /\ Going /\ SetTop(Join(Top, [p |-> p])) /\ Log([op |-> "pred", p |-> p]) /\ Quiet
Conn(c) == /\ Going /\ SetTop(Connect(Top, c)) /\ Log([op |-> c]) /\ Quiet
Open(c) == /\ Going /\ Len(stack) <= MaxDepth
           /\ stack' = Append(stack, NewFrame(c))
           /\ Log([op |-> "open", c |-> c]) /\ Quiet
Close   == /\ ~done /\ Len(stack) > 1
           /\ LET outer == stack[Len(stack) - 1]
                  f == IF Top.ors = <<>> THEN outer      \* nothing inside: no effect
                       ELSE Join(Connect(outer, Top.via), [g |-> Top.ors])
              IN stack' = Append(SubSeq(stack, 1, Len(stack) - 2), f)
           /\ Log([op |-> "close"]) /\ Quiet
AtTop == Len(stack) = 1
Order(k) == /\ Going /\ keys' = Append(keys, k.key) /\ Log([op |-> "order", m |-> k.m, key |-> k.key])
            /\ UNCHANGED <<stack, limit, offset, done>>
Limit(n) == /\ Going /\ limit' = (IF n > 0 THEN n ELSE limit) /\ Log([op |-> "limit", n |-> n])
            /\ UNCHANGED <<stack, keys, offset, done>>
Offset(n) == /\ Going /\ offset' = (IF n > 0 THEN n ELSE offset) /\ Log([op |-> "offset", n |-> n])
             /\ UNCHANGED <<stack, keys, limit, done>>
Page(n) == /\ Going /\ offset' = (IF n > 0 THEN limit * (n - 1) ELSE offset) /\ Log([op |-> "page", n |-> n])
           /\ UNCHANGED <<stack, keys, limit, done>>
(* Rendering is an observation: it changes nothing. *)
Render(pos) == /\ Going /\ AtTop
               /\ Log([op |-> "render", pos |-> pos, obs |-> Observation(Top.ors, keys, limit, offset)])
               /\ UNCHANGED <<stack, keys, limit, offset, done>>
Finish == /\ ~done /\ AtTop /\ done' = TRUE
          /\ \E pos \in Positions :
               Log([op |-> "render", pos |-> pos, obs |-> Observation(Top.ors, keys, limit, offset)])
          /\ UNCHANGED <<stack, keys, limit, offset>>

Next == \/ \E p \in Preds : Pred(p)
        \/ \E c \in {"and", "or"} : Conn(c) \/ Open(c)
        \/ Close
        \/ \E k \in SortKeys : Order(k)
        \/ \E n \in Nums : Limit(n) \/ Offset(n) \/ Page(n)
        \/ \E pos \in Positions : Render(pos)
        \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- properties of the design -- *)
TypeOK == /\ Len(stack) \in 1..(MaxDepth + 1) /\ limit >= 0 /\ offset >= 0
(* A group in the tree is never empty, so a rendering never has "()" or a
   connector without operands on both sides. *)
RECURSIVE WellFormed(_)
WellFormed(g) == \A i \in 1..Len(g) : /\ Len(g[i]) > 0
                   /\ \A j \in 1..Len(g[i]) : "g" \in DOMAIN g[i][j] => g[i][j].g # <<>> /\ WellFormed(g[i][j].g)
GroupsWellFormed == \A i \in 1..Len(stack) : WellFormed(stack[i].ors)
(* Adding a predicate with AND never widens the selection; with OR never narrows it. *)
Monotone ==
  [][ AtTop /\ Len(stack') = 1 /\ Len(stack'[1].ors) = Len(Top.ors) /\ Top.ors # <<>>
        /\ Len(Top.ors) = 1 => \A r \in 1..NRows : EvalGroup(Rows[r], stack'[1].ors) = "T" => EvalGroup(Rows[r], Top.ors) = "T" ]_vars
CountIgnoresPaging == \* the counted set never depends on ordering and paging
  [][ stack' = stack => Selected(stack'[1].ors) = Selected(stack[1].ors) ]_vars

Emit == done => PrintT("TRACE " \o ToJson(hist))
=============================================================================
