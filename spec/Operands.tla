------------------------------ MODULE Operands ------------------------------
(* What may be compared with what (C11): a condition is a column, a predicate, *)
(* perhaps a quantifier or a function, and an operand, which is a field, a     *)
(* column, or a literal. For every one of them the specification says whether  *)
(* the database has the comparison ("accept"), has none ("refuse"), or leaves  *)
(* it to the tool ("open"); whatever the tool accepts, the database must take. *)
EXTENDS Choices, Sequences, SequencesExt, FiniteSets, Functions, TLC, Json
CONSTANTS Part,   \* "fields", "columns", "literals"
          From, Share,  \* of a thousand uses, which
          Seed

(* -------------------------------------------------------------- columns -- *)
C(n, ddl, fam, elem) == [ n |-> n, ddl |-> ddl, fam |-> fam, elem |-> elem ]
Columns == <<
  C("t", "text", "text", ""), C("v", "varchar(8)", "text", ""), C("v1", "varchar(1)", "text", ""), C("c", "char(3)", "text", ""), C("c1", "char(1)", "text", ""), C("n", "name", "text", ""),
  C("i2", "int2", "num", ""), C("i4", "int4", "num", ""), C("i8", "int8", "num", ""), C("f4", "float4", "num", ""), C("f8", "float8", "num", ""), C("nu", "numeric(9,2)", "num", ""),
  C("b", "boolean", "bool", ""), C("m", "omood", "enum", ""), C("by", "bytea", "bytea", ""),
  C("d", "date", "date", ""), C("ts", "timestamp", "date", ""), C("tz", "timestamptz", "date", ""), C("tm", "time", "time", ""), C("iv", "interval", "time", ""),
  C("u", "uuid", "uuid", ""), C("ip", "inet", "inet", ""), C("ma", "macaddr", "mac", ""), C("mo", "money", "money", ""), C("o", "oid", "oid", ""),
  C("bi", "bit(1)", "bits", ""), C("vb", "varbit", "bits", ""),
  C("js", "json", "json", ""), C("jb", "jsonb", "jsonb", ""), C("x", "xml", "xml", ""), C("p", "point", "geo", ""), C("rg", "int4range", "range", ""), C("tv", "tsvector", "tsvector", ""),
  C("ai", "int4[]", "array", "num"), C("at", "text[]", "array", "text"), C("am", "omood[]", "array", "enum"), C("ab", "bool[]", "array", "bool"), C("ad", "timestamptz[]", "array", "date"), C("aj", "json[]", "array", "json") >>
NotNull == {"i4", "b"}

(* ------------------------------------------------------------ predicates -- *)
Eq == <<"=", "<>", "!=">>
Ord == <<"<", ">", "<=", ">=">>
Dist == <<"isdistinct", "notdistinct">>
Regex == <<"~", "~*", "!~", "!~*">>
Like == <<"islike", "notlike">>
Pat == <<"isilike", "notilike", "issimilar", "notsimilar">>
In == <<"isin", "notin">>
Btw == <<"isbetween", "notbetween", "isbetweensym", "notbetweenasym">>
Unary == <<"isnull", "notnull", "istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown">>
Class(p) == CASE p \in Range(Eq) -> "eq" [] p \in Range(Ord) -> "ord" [] p \in Range(Dist) -> "dist" [] p \in Range(Regex) -> "regex"
              [] p \in Range(Like) -> "like" [] p \in Range(Pat) -> "pat" [] p \in Range(In) -> "in" [] p \in Range(Btw) -> "btw" [] OTHER -> "unary"
Has(fam, elem, class) ==
  CASE class = "eq" -> fam \notin {"json", "xml"}   \* a point is <> another
    [] class \in {"dist", "in"} -> fam \notin {"json", "xml", "geo"}
    [] class \in {"ord", "btw"} -> fam \notin {"json", "xml", "geo"}
    [] class = "regex" -> fam = "text"
    [] class = "like" -> fam \in {"text", "bytea"}
    [] class = "pat" -> fam = "text"
    [] OTHER -> TRUE

(* -------------------------------------------------------------- operands -- *)
(* Go types, and the columns that they are the natural type for *)
Scalar == << [ go |-> "string", of |-> {"t", "v", "c", "n"} ], [ go |-> "*string", of |-> {"t"} ], [ go |-> "NS", of |-> {} ],
             [ go |-> "int", of |-> {"i4", "i8"} ], [ go |-> "*int", of |-> {"i4"} ], [ go |-> "int16", of |-> {"i2"} ], [ go |-> "int64", of |-> {"i8"} ], [ go |-> "uint", of |-> {} ], [ go |-> "uint8", of |-> {} ], [ go |-> "rune", of |-> {} ],
             [ go |-> "float32", of |-> {"f4"} ], [ go |-> "float64", of |-> {"f8"} ], [ go |-> "bool", of |-> {"b"} ], [ go |-> "NB", of |-> {} ], [ go |-> "[]byte", of |-> {"by"} ],
             [ go |-> "time.Time", of |-> {"ts", "tz", "d"} ], [ go |-> "[16]byte", of |-> {} ], [ go |-> "sql.NullString", of |-> {} ], [ go |-> "net.IP", of |-> {} ], [ go |-> "map[string]int", of |-> {} ], [ go |-> "interface{}", of |-> {} ] >>
Listy == << [ go |-> "[]string", of |-> {"t", "v", "c", "n"} ], [ go |-> "[]int", of |-> {"i4", "i8"} ], [ go |-> "[]int16", of |-> {"i2"} ], [ go |-> "[]int64", of |-> {"i8"} ], [ go |-> "[]float64", of |-> {"f8"} ], [ go |-> "[]bool", of |-> {"b"} ],
            [ go |-> "[][]byte", of |-> {"by"} ], [ go |-> "[]time.Time", of |-> {"tz"} ], [ go |-> "[][]int", of |-> {} ], [ go |-> "[]uint", of |-> {} ], [ go |-> "[]rune", of |-> {} ], [ go |-> "[2]int", of |-> {} ], [ go |-> "[]*string", of |-> {} ] >>
Kind(go) == CASE go \in {"int", "*int", "int16", "int64", "uint", "float32", "float64"} -> "num" [] go \in {"bool", "NB"} -> "bool" [] OTHER -> ""
Families == {"text", "bool", "date", "uuid", "inet", "bytea", "num"}
Callable == <<"lower", "upper", "length", "md5", "abs", "octet_length", "initcap", "date", "float8", "quote_literal", "ceil">>
NotCallable == <<"max", "count", "sum", "array_agg", "bool_and", "unnest", "json_array_elements", "row_number", "nosuch", "char", "interval", "lead", "hidden", "ambig", "defd", "twoarg">>
TextFunctions == {"lower", "upper", "md5", "initcap"}

L(text, fam, ok) == [ text |-> text, fam |-> fam, ok |-> ok ]
Literals == << L("1", "num", TRUE), L("-1.5", "num", TRUE), L("1::int2", "num", TRUE), L("2::int8", "num", TRUE), L("3.5::float8", "num", TRUE), L("'a'::text", "text", TRUE), L("'a'::varchar", "text", TRUE), L("'a'::name", "text", TRUE),
   L("'a'", "untyped", TRUE), L("'p'", "untyped", TRUE), L("''", "untyped", TRUE), L("'1'", "untyped", TRUE), L("null", "untyped", TRUE), L("'it''s'", "untyped", TRUE), L("'{}'", "untyped", TRUE),
   L("true", "bool", TRUE), L("false", "bool", TRUE), L("'p'::omood", "enum", TRUE), L("'z'::omood", "enum", FALSE), L("'x'::bytea", "bytea", TRUE), L("now()", "date", TRUE), L("'2020-01-01'::date", "date", TRUE), L("'2020-13-01'::date", "date", FALSE), L("current_date", "date", TRUE),
   L("'1 day'::interval", "time", TRUE), L("'::1'::inet", "inet", TRUE), L("'{}'::json", "json", TRUE), L("'{}'::jsonb", "jsonb", TRUE), L("'empty'::int4range", "range", TRUE), L("B'1'", "bits", TRUE),
   L("array[1]", "array num", TRUE), L("'{1}'::int[]", "array num", TRUE), L("'{a}'::text[]", "array text", TRUE), L("array['p'::omood]", "array enum", TRUE), L("array[true]", "array bool", TRUE), L("array[now()]", "array date", TRUE), L("array[]", "", FALSE),
   L("upper('x')", "text", TRUE), L("(1)", "num", TRUE), L("1+1", "num", TRUE), L("'x'||'y'", "text", TRUE), L("1/0", "num", FALSE), L("nosuch(1)", "", FALSE), L("'x", "", FALSE), L("1)", "", FALSE), L("1::nosuch", "", FALSE), L("'x'::int", "", FALSE), L("o.i4", "", FALSE), L("1;", "", FALSE) >>

(* ------------------------------------------------------------------ uses -- *)
None == [ k |-> "none" ]
Use(clause, col, p, q, fn, operand) == [ clause |-> clause, col |-> col, p |-> p, q |-> q, fn |-> fn, operand |-> operand ]
Clauses == <<"where", "where", "where", "join", "delete", "update">>
FieldClauses == <<"where", "where", "delete", "update", "count">>
AllPreds == Eq \o Ord \o Dist \o Regex \o Like \o Pat
Quants == <<"any", "some", "all">>
Field(g) == [ k |-> "field", go |-> g.go, of |-> g.of ]
N(part) == CASE part = "fields" -> Len(Columns) * 40 * 40 [] part = "columns" -> Len(Columns) * Len(Columns) * 24 [] part = "literals" -> Len(Columns) * Len(Literals) * 24
Gen(i) ==
  LET x == Mix(i % P, Seed + 41)
      col == Columns[1 + (i % Len(Columns))]
      j == i \div Len(Columns)
      clause == Pick(x, 1, Clauses)
      quant == IF Chance(x, 2, 22) THEN Pick(x, 3, Quants) ELSE ""
      pred == IF quant # "" THEN Pick(x, 4, Eq \o Ord \o Like \o Regex \o Pat) ELSE IF Chance(x, 5, 45) THEN Pick(x, 6, Eq \o Ord \o Dist) ELSE IF Chance(x, 7, 75) THEN Pick(x, 8, Regex \o Like \o Pat) ELSE Pick(x, 9, In)
  IN CASE Part = "fields" ->
            IF Chance(x, 10, 12)
            THEN LET btw == Pick(x, 11, Btw) IN Use("where", col, btw, "", "", [ k |-> "between", lo |-> Pick(x, 12, Scalar), hi |-> IF Chance(x, 13, 60) THEN Pick(x, 12, Scalar) ELSE Pick(x, 14, Scalar), hicol |-> IF Chance(x, 15, 30) THEN Pick(x, 16, Columns) ELSE Columns[1], ascol |-> Chance(x, 15, 30) ])
            ELSE LET listy == quant # "" \/ pred \in Range(In)
                     suits(s) == SelectSeq(s, LAMBDA g : col.n \in g.of)
                     pool == IF Chance(x, 17, 85) THEN (IF listy THEN Listy ELSE Scalar) ELSE (IF listy THEN Scalar ELSE Listy)
                     g == IF suits(pool) # <<>> /\ Chance(x, 18, 50) THEN Pick(x, 19, suits(pool)) ELSE Pick(x, 20, pool)
                     fn == IF Chance(x, 21, 22) THEN (IF Chance(x, 22, 60) THEN Pick(x, 23, Callable) ELSE Pick(x, 24, NotCallable)) ELSE ""
                 IN Use(Pick(x, 25, FieldClauses), col, pred, quant, fn, Field(g))
       [] Part = "columns" ->
            IF Chance(x, 10, 10) THEN Use(clause, col, Pick(x, 11, Unary), "", "", None)
            ELSE Use(clause, col, pred, quant, "", [ k |-> "column", col |-> Columns[1 + (j % Len(Columns))] ])
       [] OTHER -> Use(clause, col, pred, quant, "", [ k |-> "literal", lit |-> Literals[1 + (j % Len(Literals))] ])

(* --------------------------------------------------------------- verdicts -- *)
Listed(u) == u.q # "" \/ Class(u.p) = "in"
(* the family of the values a column or a literal is compared by *)
LitElem(f) == CASE f = "array num" -> "num" [] f = "array text" -> "text" [] f = "array enum" -> "enum" [] f = "array bool" -> "bool" [] f = "array date" -> "date" [] OTHER -> ""
Apart(a, b) == a \in Families /\ b \in Families /\ a # b
Verdict(u) ==
  LET fam == u.col.fam elem == u.col.elem cl == Class(u.p) o == u.operand IN
  IF cl = "unary" THEN
       IF u.p \in {"isnull", "notnull"} THEN (IF u.col.n \in NotNull /\ u.clause # "where" THEN "open" ELSE IF u.col.n \in NotNull THEN "refuse" ELSE "accept")
       ELSE IF fam = "bool" THEN "accept" ELSE "refuse"
  ELSE IF u.q # "" /\ u.p \in {"issimilar", "notsimilar"} THEN "refuse"   \* there is no SIMILAR TO ANY
  ELSE IF u.fn # "" THEN
       IF u.fn \in Range(NotCallable) THEN "refuse"
       ELSE IF u.fn \in TextFunctions /\ u.col.n \in {"t", "v"} /\ o.go = "string" /\ u.q = "" /\ cl \in {"eq", "ord"} THEN "accept" ELSE "open"
  ELSE IF ~Has(fam, elem, cl) THEN (IF o.k = "literal" /\ o.lit.text = "null" THEN "open" ELSE "refuse")
  ELSE CASE o.k = "field" ->
              IF Listed(u) /\ o.go \in { g.go : g \in Range(Scalar) } \ {"string", "*string", "NS", "[]byte", "sql.NullString", "interface{}", "map[string]int", "net.IP", "[16]byte"} THEN "refuse"
              ELSE IF Kind(o.go) # "" /\ Apart(Kind(o.go), fam) THEN "refuse"
              ELSE IF Listed(u) /\ (u.col.n = "n" \/ (u.col.n = "c" /\ cl \in {"regex", "like", "pat"})) THEN "open"
              ELSE IF u.col.n \in o.of /\ (~Listed(u) <=> o.go \in { g.go : g \in Range(Scalar) }) THEN "accept" ELSE "open"
         [] o.k = "between" ->
              IF (Kind(o.lo.go) # "" /\ Apart(Kind(o.lo.go), fam)) \/ (~o.ascol /\ Kind(o.hi.go) # "" /\ Apart(Kind(o.hi.go), fam)) \/ (o.ascol /\ Apart(o.hicol.fam, fam)) THEN "refuse"
              ELSE IF u.col.n \in o.lo.of /\ ((~o.ascol /\ u.col.n \in o.hi.of) \/ (o.ascol /\ o.hicol.n = u.col.n)) THEN "accept" ELSE "open"
         [] o.k = "column" ->
              IF Listed(u) THEN (IF o.col.fam # "array" THEN "refuse" ELSE IF Apart(fam, o.col.elem) THEN "refuse"
                                 ELSE IF <<u.col.n, o.col.n>> \in {<<"i4", "ai">>, <<"t", "at">>, <<"b", "ab">>, <<"tz", "ad">>} THEN "accept" ELSE "open")
              ELSE IF Apart(fam, o.col.fam) \/ (fam = "array" /\ o.col.fam \in Families) \/ (fam \in Families /\ o.col.fam = "array") THEN "refuse"
              ELSE IF u.col.n = o.col.n /\ fam # "geo" THEN "accept" ELSE "open"
         [] OTHER ->
              IF ~o.lit.ok THEN "refuse"
              ELSE IF Listed(u) THEN (IF LitElem(o.lit.fam) = "" THEN (IF o.lit.fam = "untyped" THEN "open" ELSE "refuse") ELSE IF Apart(fam, LitElem(o.lit.fam)) THEN "refuse" ELSE "open")
              ELSE IF fam = "enum" /\ o.lit.fam = "untyped" THEN (IF o.lit.text = "'p'" THEN "accept" ELSE IF o.lit.text = "null" THEN "open" ELSE "refuse")
              ELSE IF Apart(fam, o.lit.fam) THEN "refuse"
              ELSE IF fam = "text" /\ o.lit.fam = "untyped" /\ o.lit.text # "null" THEN "accept"
              ELSE IF <<u.col.n, o.lit.text>> \in {<<"i4", "1">>, <<"b", "true">>, <<"b", "false">>, <<"t", "'a'::text">>, <<"d", "current_date">>, <<"tz", "now()">>, <<"m", "'p'::omood">>} THEN "accept" ELSE "open"

ASSUME \A c \in Range(Columns) : PrintT("COL " \o ToJson(c))

VARIABLES i, done
vars == <<i, done>>
Init == i \in { k \in 0..(N(Part) - 1) : LET m == Mix(k % P, Seed + 40) % 1000 IN m >= From /\ m < Share } /\ done = FALSE
Emit == /\ ~done /\ PrintT("TRACE " \o ToJson([ i |-> i, u |-> Gen(i), v |-> Verdict(Gen(i)) ])) /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Emit]_vars

(* every use has a verdict; an operator a type lacks is never accepted, whatever it is used with *)
Decided == Verdict(Gen(i)) \in {"accept", "refuse", "open"}
NoOperator == LET u == Gen(i) IN Verdict(u) = "accept" /\ u.fn = "" => Has(u.col.fam, u.col.elem, Class(u.p))
(* what is between two values is comparable with each *)
BetweenBoth == LET u == Gen(i) IN
  u.operand.k = "between" /\ ~u.operand.ascol /\ Verdict(u) = "accept"
  => Verdict([ u EXCEPT !.p = ">=", !.operand = Field(u.operand.lo) ]) = "accept" /\ Verdict([ u EXCEPT !.p = "<=", !.operand = Field(u.operand.hi) ]) = "accept"
(* comparisons of columns do not depend on the side *)
Sides == LET u == Gen(i) IN
  u.operand.k = "column" /\ ~Listed(u) => Verdict(u) = "accept" \/ Verdict(u) = "open" \/ Verdict([ u EXCEPT !.col = u.operand.col, !.operand.col = u.col ]) # "accept"
=============================================================================
