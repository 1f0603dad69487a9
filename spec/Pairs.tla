-------------------------------- MODULE Pairs ---------------------------------
(* Which Go types may stand for which columns, and what a column is for a      *)
(* program that has a field for it (C13): the value that was put is the value  *)
(* that is got, and it is found by the conditions that it satisfies.           *)
EXTENDS Codec, Json

CONSTANTS MaxPuts, What      \* "pairs", "values", "histories"

--------------------------------------------------------------------------------
(* Go types.                                                                   *)
Ints   == {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "NI", "time.Duration"}
Floats2 == {"float32", "float64"}
Cplx   == {"complex64", "complex128"}
Bools  == {"bool", "NB"}
Chars  == {"byte", "rune"}             \* numbers that may also stand for a character
Textual == {"string", "[]byte", "NS"}  \* hold the text of anything
Els == (Ints \ {"NI", "time.Duration", "uintptr"}) \cup Floats2 \cup {"bool", "rune"}
Containers == { "[]" \o e : e \in Els \cup {"string", "[]byte"} } \cup { "[2]" \o e : e \in Els \ {"bool", "rune"} }
              \cup { "[][2]" \o e : e \in Els \ {"bool", "rune"} } \cup { "[][]" \o e : e \in (Els \cup {"string", "[]byte"}) \ {"rune"} }
Others == {"time.Time", "[]time.Time", "[2]time.Time", "[][2]time.Time", "net.IP", "[]net.IP", "net.IPNet", "[]net.IPNet", "net.HardwareAddr", "[]net.HardwareAddr",
           "[16]byte", "[][16]byte", "[2][2]float64", "[][2][2]float64", "[3]float64", "[][3]float64", "[][][2]float64",
           "map[string]string", "map[string]*string", "map[string]sql.NullString", "[]map[string]string", "[]map[string]*string", "[]map[string]sql.NullString",
           "interface{}", "sql.NullString", "map[string]interface{}", "JDoc", "json.RawMessage", "XDoc", "NBytes"}
ScalarKinds == Ints \cup Floats2 \cup Cplx \cup Bools \cup Chars
Pointable == ScalarKinds \cup Textual \cup {"time.Time", "net.IP", "net.IPNet", "[16]byte", "sql.NullString", "JDoc", "map[string]string", "[]int", "[]string", "[]float64", "[2]int", "[2]float64", "XDoc"}
GoTypes == ScalarKinds \cup Textual \cup Containers \cup Others \cup { "*" \o t : t \in Pointable }
Pointed(t) == CHOOSE s \in Pointable : "*" \o s = t
IsPointer(t) == t \in { "*" \o s : s \in Pointable }

--------------------------------------------------------------------------------
(* Columns: a name, how it is declared, the type whose values it holds.        *)
Col(n, d, b) == [n |-> n, ddl |-> d, base |-> b]
Len1 == {"bit", "bpchar", "char"}
Plain == { Col(s, IF s \in Len1 THEN s \o "(1)" ELSE s, s) : s \in DOMAIN Scalars }
Arrays == { Col(ArrayNames[s], IF s \in Len1 THEN s \o "(1)[]" ELSE ArrayNames[s], ArrayNames[s]) : s \in DOMAIN Scalars }
Declared == { Col("varchar9", "varchar(9)", "varchar"), Col("varchar1", "varchar(1)", "bpchar"), Col("varchar9[]", "varchar(9)[]", "varchar[]"), Col("varbit64", "varbit(64)", "varbit"), Col("varbit1", "varbit(1)", "bit"),
              Col("label", "plabel", "label"), Col("char3", "char(3)", "char3"), Col("bit3", "bit(3)", "varbit"), Col("name", "name", "text"), Col("time6", "time(6)", "time"), Col("timestamp6", "timestamp(6)", "timestamp") }
Columns == Plain \cup Arrays \cup Declared \cup { [c EXCEPT !.n = c.n \o " not null", !.ddl = c.ddl \o " not null"] : c \in Plain }

Family(c) ==
  LET b == c.base IN
  IF b \in {"label", "char3"} THEN "text"
  ELSE IF IsArray(b) THEN "other"
  ELSE LET t == Scalars[b] IN
       IF t.s # "atom" THEN "other"
       ELSE CASE t.f \in {"int2", "int4", "int8", "numeric", "float4", "float8", "money"} -> "number"
              [] t.f = "bool" -> "bool"
              [] t.f \in {"bit", "varbit"} -> "bits"
              [] t.f = "char" -> "char"
              [] t.f = "text" -> "text"
              [] t.f \in {"json", "jsonb", "xml"} -> "document"
              [] OTHER -> "other"

(* The families of column a scalar kind belongs with.                          *)
Belongs(k) == CASE k \in Bools -> {"bool", "bits", "document"}
                [] k \in Chars -> {"number", "bits", "char", "document"}
                [] k \in Ints -> {"number", "bits", "document"}
                [] k \in Floats2 -> {"number", "document"}
                [] k \in Cplx -> {}
MustRefuse(g, c) == LET k == IF IsPointer(g) THEN Pointed(g) ELSE g IN
                    k \in ScalarKinds /\ ~(c.n = "varchar1" /\ k \in Chars) /\ Family(c) \notin Belongs(k)

--------------------------------------------------------------------------------
(* The column in a program: two rows, the contents v and w of the column and   *)
(* NULL.  Puts are inserts and updates; the rest is what is seen after a put.  *)
X == {"v", "w", "null"}
Ids == 1..2
VARIABLES rows, hist, item
pvars == <<rows, hist, item>>
Rows0 == [ i \in Ids |-> "none" ]
There(r) == { i \in Ids : r[i] # "none" }
Eq(r, x) == { i \in There(r) : x # "null" /\ r[i] = x }
Ne(r, x) == { i \in There(r) : x # "null" /\ r[i] # "null" /\ r[i] # x }
Nd(r, x) == { i \in There(r) : r[i] = x }
Di(r, x) == { i \in There(r) : r[i] # x }
In(r, S) == { i \in There(r) : r[i] # "null" /\ r[i] \in S }
Ni(r, S) == { i \in There(r) : r[i] # "null" /\ "null" \notin S /\ r[i] \notin S }
Lists2 == { <<"v">>, <<"v", "w">>, <<"w", "null">> }      \* the empty list is in Stmt.tla
Rng2(l) == { l[j] : j \in 1..Len(l) }
Ask(op, xs, ids) == [op |-> op, xs |-> xs, ids |-> ids]
Asks(r) == { Ask("eq", <<x>>, Eq(r, x)) : x \in X } \cup { Ask("ne", <<x>>, Ne(r, x)) : x \in X }
           \cup { Ask("nd", <<x>>, Nd(r, x)) : x \in X } \cup { Ask("di", <<x>>, Di(r, x)) : x \in X }
           \cup { Ask("in", l, In(r, Rng2(l))) : l \in Lists2 } \cup { Ask("ni", l, Ni(r, Rng2(l))) : l \in Lists2 }
           \cup { Ask("any", l, In(r, Rng2(l))) : l \in Lists2 } \cup { Ask("all", l, Ni(r, Rng2(l))) : l \in Lists2 }
Put(i, x) == /\ Len(hist) < MaxPuts
             /\ rows' = [rows EXCEPT ![i] = x]
             /\ \E how \in IF rows[i] = "none" THEN {"insert"} ELSE {"update", "updates"} :   \* one by its key, or a list of records
                hist' = Append(hist, [how |-> how, id |-> i, x |-> x, rows |-> rows', asks |-> Asks(rows')])
             /\ UNCHANGED item

(* A field that cannot be nil puts its zero value for null: the column holds   *)
(* NULL or the zero, both are got as the zero, and the asks are as for NULL    *)
(* where NULL is what is held.                                                 *)

(* What every condition keeps apart.                                           *)
Partition == \A x \in X :
  /\ Nd(rows, x) \cap Di(rows, x) = {} /\ Nd(rows, x) \cup Di(rows, x) = There(rows)
  /\ Eq(rows, x) \subseteq Nd(rows, x) /\ Ne(rows, x) \subseteq Di(rows, x)
  /\ x # "null" => There(rows) \ (Eq(rows, x) \cup Ne(rows, x)) = { i \in Ids : rows[i] = "null" }
  /\ In(rows, {x}) = Eq(rows, x)
Lists3 == \A l \in Lists2 : In(rows, Rng2(l)) = UNION { Eq(rows, x) : x \in Rng2(l) } /\ In(rows, Rng2(l)) \cap Ni(rows, Rng2(l)) = {}
LastPutSeen == hist # <<>> => LET h == hist[Len(hist)] IN rows[h.id] = h.x /\ (h.x # "null" => h.id \in Eq(rows, h.x))

--------------------------------------------------------------------------------
(* Values beyond those of Codec.                                               *)
Char3Vals == { Null, A(<<"a", "b", "c">>), A(<<"x", "'", "y">>), A(<<"7", "7", "7">>) }
LabelVals == { Null, A(<<"p">>), A(<<"q", " ", "'">>) }
More(b) == IF b = "numeric" THEN { A(W("9223372036854775808")), A(W("18446744073709551615")) } 
           ELSE IF b = "varbit" THEN { A(W("101")), A(W("011")), A(W("111")) }
           ELSE IF b = "scalar" THEN { A(W(x)) : x \in {"7", "-1", "1.5", "true", "false", "0"} }     \* scalars kept as XML
           ELSE {}
PInit == /\ rows = Rows0 /\ hist = <<>>
         /\ CASE What = "pairs" -> item \in { [g |-> g, c |-> c] : g \in GoTypes, c \in Columns }
              [] What = "values" -> item \in { [t |-> "label", v |-> v, x |-> v.c] : v \in LabelVals } \cup { [t |-> "char3", v |-> v, x |-> v.c] : v \in Char3Vals }
                                             \cup UNION { { [t |-> b, v |-> v, x |-> v.c] : v \in More(b) } : b \in {"numeric", "scalar", "varbit"} }
              [] OTHER -> item = 0
         /\ ty = "bool" /\ val = Null /\ pc = "" /\ text = <<>> /\ got = Null
PNext == /\ What = "histories" /\ \E i \in Ids, x \in X : Put(i, x)
         /\ UNCHANGED vars
PSpec == PInit /\ [][PNext]_<<pvars, vars>>
PEmit == CASE What = "pairs" -> PrintT("TRACE " \o ToJson([go |-> item.g, col |-> item.c, v |-> IF MustRefuse(item.g, item.c) THEN "refuse" ELSE "open"]))
           [] What = "values" -> PrintT("TRACE " \o ToJson(item))
           [] OTHER -> Len(hist) = MaxPuts => PrintT("TRACE " \o ToJson(hist))
\* a pointer is refused where what it points to is
SameForPointers == What = "pairs" /\ IsPointer(item.g) => MustRefuse(item.g, item.c) = MustRefuse(Pointed(item.g), item.c)
================================================================================
