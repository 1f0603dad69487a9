----------------------------- MODULE MCFilterText -----------------------------
EXTENDS FilterText
ASSUME PrintT("ROWS " \o ToJson(Rows))
OpText == [eq |-> "", ne |-> "!", gt |-> ">", ge |-> ">=", lt |-> "<", le |-> "<="]
OpSql  == [eq |-> "=", ne |-> "<>", gt |-> ">", ge |-> ">=", lt |-> "<", le |-> "<="]
ValText(col, v) ==
  IF v = NULL THEN "null"
  ELSE CASE col = "a" -> ToString(v)
         [] col = "b" -> (CASE v = 1 -> "\"x\"" [] v = 2 -> "\"y 2\"" [] v = 3 -> "\"z'\\\"\\\\o\"")
         [] col = "c" -> (IF v = 1 THEN "true" ELSE "false")
         [] col = "d" -> "d" \o ToString(v) \o "000000"
         [] col = "e" -> ToString(v) \o ".5"
R(key, col, o, v, sp) ==
  [t |-> "rule", text |-> key \o sp \o ":" \o sp \o OpText[o] \o sp \o ValText(IF col = "" THEN "a" ELSE col, v),
   key |-> key, col |-> col, op |-> OpSql[o], v |-> v,
   conv |-> IF key = "inc" THEN "inc" ELSE IF key = "bad" THEN "fail" ELSE "",
   bad |-> (v = NULL \/ col = "c") /\ o \notin {"eq", "ne"}]
Bad(tx) == [t |-> "rule", text |-> tx, key |-> "", col |-> "a", op |-> "=", v |-> 1, conv |-> "", bad |-> TRUE]
Raw(tx, key, col, op, v) == [t |-> "rule", text |-> tx, key |-> key, col |-> col, op |-> op, v |-> v, conv |-> "", bad |-> FALSE]
Ops == DOMAIN OpText
FullRules ==
  { R("a", "a", o, v, "") : o \in Ops, v \in {NULL, 1, 2, -5} } \cup
  { R("b", "b", o, v, sp) : o \in Ops, v \in {NULL, 1, 2, 3}, sp \in {"", " "} } \cup
  { R("c", "c", o, v, "") : o \in Ops, v \in {NULL, 1, 0} } \cup
  { R("d", "d", o, v, "") : o \in Ops, v \in {NULL, 1, 2} } \cup
  { R("e", "e", o, v, " ") : o \in Ops, v \in {0, 3, 6} } \cup
  { R("n.b", "b", o, v, "") : o \in {"eq", "ne"}, v \in {1, 3} } \cup
  { R("_a1", "a", o, v, "") : o \in {"eq", "ge"}, v \in {1, 2} } \cup
  { R("inc", "a", o, v, "") : o \in Ops, v \in {NULL, 0, 1} } \cup
  { R("bad", "a", "eq", 1, "") } \cup
  { R(u, "", o, v, "") : u \in {"zz", "n.zz", "A"}, o \in {"eq", "gt"}, v \in {1} } \cup
  { Raw("a:+2", "a", "a", "=", 2), Raw("e:>25e-1", "e", "e", "?", 0) } \cup
  { Bad("a"), Bad("a:"), Bad("9x:1"), Bad("a:\"open"), Bad("a:tru"), Bad("a:nul"), Bad("a:1.2.3"), Bad("a:>>1"), Bad("a=1") }
SimRules == FullRules \ { Raw("e:>25e-1", "e", "e", "?", 0) }
TinyRules == { R("a", "a", "eq", 1, ""), R("b", "b", "ne", NULL, ""), R("zz", "", "eq", 1, "") }
S(tx, key, col, desc) == [text |-> tx, key |-> key, col |-> col, desc |-> desc]
SortOrExpr == ~(nexpr > 0 /\ Len(keys) > 0)
Items == { S(c, c, c, FALSE) : c \in {"a", "b", "c", "d", "e"} } \cup
         { S("-" \o c, c, c, TRUE) : c \in {"a", "b", "e"} } \cup
         { S("", "", "", FALSE), S("-", "", "", TRUE), S("zz", "zz", "", FALSE), S("-zz", "zz", "", TRUE),
           S("--a", "-a", "", TRUE), S("-n.b", "n.b", "b", TRUE), S(" a", " a", "", FALSE) }
=============================================================================
