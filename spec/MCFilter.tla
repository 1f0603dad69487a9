------------------------------- MODULE MCFilter -------------------------------
EXTENDS Filter, Randomization
ASSUME PrintT("ROWS " \o ToJson(Rows))
C(how, col, op, v) == [k |-> "cmp", how |-> how, col |-> col, op |-> op, v |-> v]
L(how, k, col, vs) == [k |-> k, how |-> how, col |-> col, vs |-> vs]
T(text, words) == [k |-> "ts", how |-> text, words |-> words]

CmpOps == {"=", "<>", "<", "<=", ">", ">=", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"}
AllPreds ==
  { C("col", "a", op, v) : op \in CmpOps, v \in {NULL, 1, 2} } \cup
  { C("col", "b", op, v) : op \in CmpOps, v \in {NULL, 1, 2, 3} } \cup
  { C("col", "c", op, v) : op \in CmpOps, v \in {NULL, 1, 0} } \cup
  { C("col", "d", op, v) : op \in {"=", "<>", "<", ">="}, v \in {NULL, 1, 2} } \cup
  { C("col", "e", op, v) : op \in {"=", "<", ">="}, v \in {0, 3, 6} } \cup
  { L(how, "in", "a", vs) : how \in {"ColInInts", "ColInInt64s", "ColInInt16s", "IN:ints", "in:int64s", "In:int16s"}, vs \in {<<>>, <<1>>, <<2, 3>>, <<3, 1, 2>>, <<9>>} } \cup
  { L(how, "in", "b", vs) : how \in {"ColInStrings", "IN:strings"}, vs \in {<<>>, <<1>>, <<3, 2>>} } \cup
  { L(how, "any", "a", vs) : how \in {"ColAnyInts", "ColAnyInt64s", "ColAnyInt16s", "ANY:ints", "any:int64s", "Any:int16s"}, vs \in {<<>>, <<1>>, <<2, 3>>, <<3, 1, 2>>, <<9>>} } \cup
  { L(how, "any", "b", vs) : how \in {"ColAnyStrings", "ANY:strings"}, vs \in {<<>>, <<1>>, <<3, 2>>} } \cup
  { T("foo", <<"foo">>), T("  fo   ba ", <<"fo", "ba">>), T("", <<>>), T("   ", <<>>), T("bar foo", <<"bar", "foo">>),
    T("zzz", <<"zzz">>), T("food", <<"food">>), T("foo  bar", <<"foo", "bar">>) }

(* One of each kind, for exhaustive enumeration of call orders. *)
FewPreds ==
  { C("col", "a", "=", 1), C("col", "b", "<>", NULL), C("col", "c", "=", 1), C("col", "a", ">", NULL),
    L("ColInInts", "in", "a", <<1, 2>>), L("ColInStrings", "in", "b", <<>>), L("ColAnyStrings", "any", "b", <<3, 2>>),
    T("foo", <<"foo">>) }
TinyPreds == { C("col", "a", "=", 1), C("col", "b", "<>", NULL), L("ColInInts", "in", "a", <<2, 3>>) }

K(col, desc, nf) == [col |-> col, desc |-> desc, nf |-> nf]
AllKeys ==
  { [m |-> "OrderBy", key |-> K(col, desc, nf)] : col \in {"a", "b", "c", "d", "e"}, desc \in BOOLEAN, nf \in BOOLEAN } \cup
  { [m |-> "OrderByV2", key |-> K(col, desc, nf)] : col \in {"a", "b", "c", "d"}, desc \in BOOLEAN, nf \in BOOLEAN } \cup
  { [m |-> "OrderByV2nn", key |-> K("e", desc, nf)] : desc \in BOOLEAN, nf \in BOOLEAN }
TwoKeys == { [m |-> "OrderBy", key |-> K("a", TRUE, FALSE)], [m |-> "OrderByV2nn", key |-> K("e", FALSE, TRUE)] }
PagingPreds == { C("col", "a", "<>", 2) }
NoKeys == {}
AllNums == {-3, -1, 0, 1, 2, 3, 5, 7, 20, 100}
PageNums == {-1, 0, 2, 3}
NoNums == {}
AllPositions == {0, 1, 2, 3, 17, 999, 65500}
OnePosition == {0}

(* For simulation: a few random choices of each kind of call at every step, so  *)
(* that connectors, groups, paging and rendering are as likely as predicates.   *)
\* depends on the state, or TLC would draw once and for all
Few(n) == IF done THEN 1 ELSE n
SimFinish == /\ ~done /\ AtTop /\ Len(hist) >= MaxLen /\ done' = TRUE
             /\ \E pos \in RandomSubset(Few(1), Positions) :
                  Log([op |-> "render", pos |-> pos, obs |-> Observation(Top.ors, keys, limit, offset)])
             /\ UNCHANGED <<stack, keys, limit, offset>>
TsPreds == { p \in Preds : p.k = "ts" }
SimNext == \/ \E p \in RandomSubset(Few(9), Preds) : Pred(p)
           \/ \E p \in RandomSubset(Few(1), TsPreds) : Pred(p)
           \/ \E c \in {"and", "or"} : Conn(c)
           \/ \E c \in RandomSubset(Few(1), {"and", "or"}) : Open(c)
           \/ Close
           \/ (SortKeys # {} /\ \E k \in RandomSubset(Few(2), SortKeys) : Order(k))
           \/ (Nums # {} /\ \E n \in RandomSubset(Few(1), Nums) : Limit(n) \/ Offset(n) \/ Page(n))
           \/ \E pos \in RandomSubset(Few(1), Positions) : Render(pos)
           \/ SimFinish
SimSpec == Init /\ [][SimNext]_vars
PageNext == \/ \E p \in RandomSubset(Few(2), Preds) : Pred(p)
            \/ Conn("or") \/ Open("and") \/ Close
            \/ \E k \in RandomSubset(Few(3), SortKeys) : Order(k)
            \/ \E n \in RandomSubset(Few(3), Nums) : Limit(n) \/ Offset(n) \/ Page(n)
            \/ (\E pos \in RandomSubset(Few(1), Positions) : Render(pos))
            \/ SimFinish
PageSpec == Init /\ [][PageNext]_vars
=============================================================================
