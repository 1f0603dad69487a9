------------------------------ MODULE FilterSem ------------------------------
(* Reference semantics of a row filter: a table with NULLs, predicates with    *)
(* three-valued logic, disjunctions of conjunctions with nested groups,        *)
(* argument lists, ordering and paging.  Nothing here knows how the code       *)
(* renders a clause: it says what the rendered clause must mean.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

NULL == -999   \* stands for SQL NULL among coded values

(* ------------------------------------------------------------------ rows -- *)
(* a: int NULL, b: text NULL (coded 1..3), c: boolean NULL (1/0), d: timestamptz     *)
(* NULL (coded), e: float8 NOT NULL (coded), t: tsvector NULL = lexeme set     *)
AVals == <<NULL, 1, 2, 3>>
BVals == <<NULL, 1, 2, 3>>
CVals == <<NULL, 1, 0>>
TVals == <<{"NULL"}, {}, {"foo"}, {"foo", "bar"}, {"food", "baz"}>>
DVals == <<NULL, 1, 2>>
NRows == Len(AVals) * Len(BVals) * Len(CVals)

Row(i) == [ id |-> i,
            a |-> AVals[((i - 1) % 4) + 1],
            b |-> BVals[(((i - 1) \div 4) % 4) + 1],
            c |-> CVals[(((i - 1) \div 16) % 3) + 1],
            d |-> DVals[((i * 7) % 3) + 1],
            e |-> (i * 5) % 7,
            t |-> TVals[((i * 11) % 5) + 1] ]
Rows == [ i \in 1..NRows |-> Row(i) ]

(* ------------------------------------------------------- three-valued logic -- *)
Bool3(b) == IF b THEN "T" ELSE "F"
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "N" \/ y = "N" THEN "N" ELSE "T"
Or3(x, y) == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "N" \/ y = "N" THEN "N" ELSE "F"

Num(x) == x
IsBool(p) == p.col = "c" /\ p.v # NULL
IsNull(x) == x = NULL
Cmp(op, x, y) ==
  IF op = "IS NOT DISTINCT FROM" THEN
       IF IsNull(x) \/ IsNull(y) THEN Bool3(IsNull(x) /\ IsNull(y)) ELSE Bool3(Num(x) = Num(y))
  ELSE IF op = "IS DISTINCT FROM" THEN
       IF IsNull(x) \/ IsNull(y) THEN Bool3(~(IsNull(x) /\ IsNull(y))) ELSE Bool3(Num(x) # Num(y))
  ELSE IF IsNull(x) \/ IsNull(y) THEN "N"
  ELSE CASE op = "="  -> Bool3(Num(x) = Num(y))
         [] op = "<>" -> Bool3(Num(x) # Num(y))
         [] op = "<"  -> Bool3(Num(x) < Num(y))
         [] op = "<=" -> Bool3(Num(x) <= Num(y))
         [] op = ">"  -> Bool3(Num(x) > Num(y))
         [] op = ">=" -> Bool3(Num(x) >= Num(y))

(* Prefix match of lexemes against search words. *)
PrefixOf == [ foo |-> {"foo", "food"}, fo |-> {"foo", "food"}, food |-> {"food"}, bar |-> {"bar"},
              ba |-> {"bar", "baz"}, zzz |-> {} ]

(* A predicate is a record:
     [k |-> "cmp",  col, op, v]      comparison; v may be NULL / a boolean / coded value
     [k |-> "in",   col, vs]         membership in a list, one argument per element
     [k |-> "any",  col, vs]         membership in an array, one argument
     [k |-> "ts",   words]           text search, one argument
   How col/op/v are passed (which method, which Go type, which spelling) is in field how. *)
EvalPred(r, p) ==
  CASE p.k = "cmp" ->
         \* equality with NULL / TRUE / FALSE is the unary test, never unknown
         IF p.v = NULL /\ p.op = "=" THEN Bool3(IsNull(r[p.col]))
         ELSE IF p.v = NULL /\ p.op = "<>" THEN Bool3(~IsNull(r[p.col]))
         ELSE IF IsBool(p) /\ p.op = "=" THEN Bool3(~IsNull(r[p.col]) /\ r[p.col] = p.v)
         ELSE IF IsBool(p) /\ p.op = "<>" THEN Bool3(IsNull(r[p.col]) \/ r[p.col] # p.v)
         ELSE Cmp(p.op, r[p.col], p.v)
    [] p.k \in {"in", "any"} ->
         IF Len(p.vs) = 0 THEN "F"
         ELSE IF IsNull(r[p.col]) THEN "N"
         ELSE Bool3(\E i \in 1..Len(p.vs) : p.vs[i] = r[p.col])
    [] p.k = "ts" ->
         IF r.t = {"NULL"} THEN "N"
         ELSE Bool3(Len(p.words) > 0 /\ \A i \in 1..Len(p.words) : r.t \cap PrefixOf[p.words[i]] # {})

(* An operand is [p |-> predicate] or [g |-> group]; a group is a sequence of
   conjunctions, each a sequence of operands; the empty group constrains nothing. *)
RECURSIVE EvalGroup(_, _)
EvalOperand(r, o) == IF "p" \in DOMAIN o THEN EvalPred(r, o.p) ELSE EvalGroup(r, o.g)
EvalGroup(r, g) ==
  IF g = <<>> THEN "T"
  ELSE FoldLeft(LAMBDA acc, conj :
                  Or3(acc, FoldLeft(LAMBDA a2, o : And3(a2, EvalOperand(r, o)), "T", conj)), "F", g)

Selected(g) == SelectSeq([i \in 1..NRows |-> i], LAMBDA i : EvalGroup(Rows[i], g) = "T")

(* The arguments a group contributes, in order: <<col, kind, values>>. *)
PredArgs(p) ==
  CASE p.k = "cmp" ->
         IF (p.v = NULL \/ IsBool(p)) /\ p.op \in {"=", "<>"} THEN <<>>
         ELSE << [col |-> p.col, k |-> "v", v |-> <<p.v>>] >>
    [] p.k = "in" -> [ i \in 1..Len(p.vs) |-> [col |-> p.col, k |-> "v", v |-> <<p.vs[i]>>] ]
    [] p.k = "any" -> << [col |-> p.col, k |-> "arr", v |-> p.vs] >>
    [] p.k = "ts" -> << [col |-> "t", k |-> "ts", v |-> p.words] >>

RECURSIVE GroupArgs(_)
OperandArgs(o) == IF "p" \in DOMAIN o THEN PredArgs(o.p) ELSE GroupArgs(o.g)
GroupArgs(g) == FoldLeft(LAMBDA acc, conj : acc \o FoldLeft(LAMBDA a2, o : a2 \o OperandArgs(o), <<>>, conj), <<>>, g)

(* ------------------------------------------------------------- ordering -- *)
(* key: [col, desc, nf] where nf = TRUE puts NULLs first *)
KeyLess(k, x, y) ==
  LET u == Rows[x][k.col]  v == Rows[y][k.col] IN
  IF IsNull(u) /\ IsNull(v) THEN 0
  ELSE IF IsNull(u) THEN (IF k.nf THEN -1 ELSE 1)
  ELSE IF IsNull(v) THEN (IF k.nf THEN 1 ELSE -1)
  ELSE IF Num(u) = Num(v) THEN 0
  ELSE IF (Num(u) < Num(v)) = ~k.desc THEN -1 ELSE 1

RECURSIVE KeysLess(_, _, _)
KeysLess(ks, x, y) ==
  IF ks = <<>> THEN x < y
  ELSE LET c == KeyLess(Head(ks), x, y) IN IF c = 0 THEN KeysLess(Tail(ks), x, y) ELSE c = -1

Ordered(ids, ks) == SortSeq(ids, LAMBDA x, y : KeysLess(ks, x, y))

Window(ids, lim, off) ==
  LET from == off + 1
      to == IF lim > 0 /\ off + lim < Len(ids) THEN off + lim ELSE Len(ids)
  IN IF from > Len(ids) THEN <<>> ELSE SubSeq(ids, from, to)

(* What one rendering must mean. *)
Observation(g, ks, lim, off) ==
  LET sel == Selected(g) ord == Ordered(sel, ks) IN
  [ count |-> sel, ordered |-> ord, window |-> Window(ord, lim, off), args |-> GroupArgs(g),
    keys |-> ks, limit |-> lim, offset |-> off ]
=============================================================================
