------------------------------- MODULE Codec --------------------------------
(* What it means for a value to be held by a PostgreSQL column (C13, C18).     *)
(* A value is a tree over atoms; a type is a structure over atom families; the *)
(* text PostgreSQL holds for a value of a type is Out(type, value).  A writer  *)
(* builds a value element by element, sends it, the database stores it, a      *)
(* reader reads it back.  Values and texts are sequences of tokens: a token is *)
(* a character ("a", "U+0009") or a run of characters that are never special   *)
(* ("192.168.0.1").                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Types,     \* names of the types explored
          MaxLen,    \* longest list
          Lists      \* how lists grow: "few" (second and later elements come from a small set) or "all"

Null == [k |-> "null", c |-> <<>>, e |-> <<>>]
A(c) == [k |-> "atom", c |-> c, e |-> <<>>]
L(e) == [k |-> "list", c |-> <<>>, e |-> e]
IsNull(v) == v.k = "null"

--------------------------------------------------------------------------------
(* Structures.                                                                 *)
Atom(f)       == [s |-> "atom", f |-> f]
Array(d, t)   == [s |-> "array", d |-> d, of |-> t]
Rng(f)        == [s |-> "range", f |-> f]
Vector(f)     == [s |-> "vector", f |-> f]            \* space separated
Tuple(o, c, n, t) == [s |-> "tuple", o |-> o, c |-> c, n |-> n, of |-> t]   \* o x,y,.. c ; n = 0: any number
HStore        == [s |-> "hstore"]

Point == Tuple("(", ")", 2, Atom("float"))
Scalars == [ bool |-> Atom("bool"), bit |-> Atom("bit"), bpchar |-> Atom("char"), char |-> Atom("char"), text |-> Atom("text"),
             varchar |-> Atom("text"), bytea |-> Atom("bytea"), int2 |-> Atom("int2"), int4 |-> Atom("int4"),
             int8 |-> Atom("int8"), numeric |-> Atom("numeric"), float4 |-> Atom("float4"), float8 |-> Atom("float8"),
             money |-> Atom("money"), uuid |-> Atom("uuid"), varbit |-> Atom("varbit"), inet |-> Atom("inet"),
             cidr |-> Atom("cidr"), macaddr |-> Atom("macaddr"), macaddr8 |-> Atom("macaddr8"), date |-> Atom("date"),
             time |-> Atom("time"), timetz |-> Atom("timetz"), timestamp |-> Atom("timestamp"),
             timestamptz |-> Atom("timestamptz"), interval |-> Atom("interval"), json |-> Atom("json"),
             jsonb |-> Atom("jsonb"), xml |-> Atom("xml"), tsquery |-> Atom("tsquery"), circle |-> Atom("circle"),
             tsvector |-> Vector("lexeme"), int2vector |-> Vector("int2"),
             point |-> Point, lseg |-> Tuple("[", "]", 2, Point), box |-> Tuple("", "", 2, Point),
             line |-> Tuple("{", "}", 3, Atom("float")), path |-> Tuple("[", "]", 0, Point), polygon |-> Tuple("(", ")", 0, Point),
             hstore |-> HStore,
             int4range |-> Rng("int4"), int8range |-> Rng("int8"), numrange |-> Rng("numeric"),
             daterange |-> Rng("date"), tsrange |-> Rng("timestamp"), tstzrange |-> Rng("timestamptz") ]
ArrayNames == [ s \in DOMAIN Scalars |-> s \o "[]" ]
AllTypes == { s : s \in DOMAIN Scalars } \cup { ArrayNames[s] : s \in DOMAIN Scalars }
Elem(ty) == CHOOSE s \in DOMAIN Scalars : ArrayNames[s] = ty
IsArray(ty) == ty \notin DOMAIN Scalars
TypeOf(ty) == IF ty \in DOMAIN Scalars THEN Scalars[ty]
              ELSE Array(IF Elem(ty) = "box" THEN ";" ELSE ",", Scalars[Elem(ty)])

--------------------------------------------------------------------------------
(* Atoms: representative contents of every family.                             *)
W(s) == <<s>>
Words(S) == { W(s) : s \in S }

\* characters that mean something to some notation, and some that look as if they did
Special == {"a", "N", "1", ",", "\"", "\\", "{", "}", " ", "'", "(", ")", "[", "]", ";", "=", ">", ":", "%", "/", "-",
            "U+0009", "U+000A", "U+000B", "U+000C", "U+000D", "U+0007", "U+0008", "U+00E9", "U+1F600"}
Tricky == {"a", ",", "\"", "\\", "{", "}", " ", "'", "=", ">", "U+000A", "U+00E9"}
NullWords == { <<"N","U","L","L">>, <<"n","u","l","l">>, <<"N","U","L","L","s">>, <<"N">>, <<"N","u","l","l"," ">>, <<"N","a">> }
Strings == { <<>> } \cup { <<c>> : c \in Special } \cup { <<c, d>> : c \in Special, d \in Special } \cup NullWords
           \cup { <<c, "\\", d>> : c \in Tricky, d \in Tricky }
FewStrings == { <<>>, <<"a">>, <<"N","U","L","L">>, <<"N","U","L","L","s">>, <<"\"">>, <<"\\">>, <<",">>, <<"\\", "\"">>, <<"{", "}">>,
                <<" ">>, <<"=", ">">>, <<"U+000A">>, <<"'", "a">>, <<"a", ",", "a">>, <<"U+00E9">>, <<"\\", "\\", "a">> }

Ints2 == {"0", "1", "-1", "7", "100", "127", "-128", "128", "255", "256", "-129", "32767", "-32768"}
Ints4 == Ints2 \cup {"65535", "65536", "16777216", "16777217", "2147483647", "-2147483648", "1000000"}
Ints8 == Ints4 \cup {"4294967295", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808"}
Floats == {"0", "1", "-1", "1.5", "-0.25", "100", "0.1", "123456.75"}

Atoms == [
  bool |-> Words({"t", "f"}),
  bit |-> Words({"0", "1"}),
  char |-> { <<c>> : c \in Special } \cup { <<"z">>, <<"0">> },
  text |-> Strings,
  bytea |-> { <<"\\", x>> : x \in {"x", "x00", "x5c", "x22", "xff", "x2c", "x7b7d", "x4e554c4c", "x00ff5c2720", "x61"} },
  int2 |-> Words(Ints2), int4 |-> Words(Ints4), int8 |-> Words(Ints8),
  numeric |-> Words(Ints8 \cup Floats \cup {"12345678901234567890123.456", "100000000000000000000", "0.000001", "9223372036854775808", "18446744073709551615", "NaN"}),
  float |-> Words(Floats \cup {"-123.456", "0.0001"}),
  float4 |-> Words(Floats \cup {"NaN", "Infinity", "-Infinity", "1e+20", "1e-07", "3.4028235e+38", "1.6777216e+07"}),
  float8 |-> Words(Floats \cup {"NaN", "Infinity", "-Infinity", "1e+20", "1e-07", "1.7976931348623157e+308", "0.30000000000000004", "16777217"}),
  money |-> { W("$0.00"), W("$0.01"), W("$0.29"), W("$1.15"), W("$1.20"), W("-$1.20"), W("-$0.05"), W("$999.99"), <<"$1", ",", "000.00">>, <<"-$1", ",", "234.56">>,
              <<"$1", ",", "234", ",", "567.89">>, <<"$92", ",", "233", ",", "720", ",", "368", ",", "547", ",", "758.07">> },
  uuid |-> Words({"a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"}),
  varbit |-> Words({"", "0", "1", "101", "0010", "11111111", "111111111111111111111111111111111111111111111111111111111111111"}),
  inet |-> Words({"192.168.0.1", "192.168.0.0/24", "192.168.0.5/24", "0.0.0.0/0", "::1", "2001:4f8:3:ba::/64", "2001:4f8:3:ba:2e0:81ff:fe22:d1f1/64", "10.0.0.0/8", "10.1.2.3/31"}),
  cidr |-> Words({"192.168.0.0/24", "192.168.100.128/25", "0.0.0.0/0", "::1/128", "2001:4f8:3:ba::/64", "10.1.2.3/32"}),
  macaddr |-> Words({"08:00:2b:01:02:03", "00:00:00:00:00:00", "ff:ff:ff:ff:ff:ff"}),
  macaddr8 |-> Words({"08:00:2b:01:02:03:04:05", "00:00:00:00:00:00:00:00", "ff:ff:ff:ff:ff:ff:ff:fe"}),
  date |-> Words({"1999-01-08", "2000-02-29", "1970-01-01", "1969-12-31", "0099-12-31", "9999-12-31"}),
  time |-> Words({"00:00:00", "04:05:06", "23:59:59", "04:05:06.789", "04:05:06.7", "23:59:59.999999", "12:00:00.000001"}),
  timetz |-> Words({"04:05:06+00", "04:05:06-08", "04:05:06.789+02", "23:59:59.999999+05:30", "00:00:00-03:30", "12:00:00.000001+14"}),
  timestamp |-> { <<d, " ", t>> : d \in {"1999-01-08", "2000-02-29", "0099-12-31", "9999-12-31", "2021-03-28"},
                                   t \in {"00:00:00", "04:05:06", "02:30:00.5", "23:59:59.999", "12:00:00.000001", "23:59:59.999999"} },
  timestamptz |-> { <<d, " ", t, "+00">> : d \in {"1999-01-08", "2000-02-29", "1850-06-01", "2021-03-28", "2021-10-31", "9998-12-31"},
                                   t \in {"00:00:00", "04:05:06", "01:30:00.5", "23:59:59.999", "12:00:00.000001", "23:59:59.999999"} },
  interval |-> { <<"1", " ", "day">>, <<"00:00:00">>, <<"-1", " ", "years", " ", "-2", " ", "mons", " ", "+3", " ", "days", " ", "04:05:06.789">> },
  json |-> { <<"{", "}">>, <<"[", "1", ",", " ", "2", "]">>, W("1.5"), W("true"), <<"\"", "\"">>, <<"\"", "a", "\\", "\"", "b", "\"">>, <<"\"", "\\", "\\", "\"">>, <<"\"", "N", "U", "L", "L", "\"">>,
             <<"{", "\"", "a", "\"", ":", "[", "{", "\"", "b", "\"", ":", "null", "}", ",", "\"", "x,y", "\"", "]", "}">>, <<"\"", "U+00E9", "\"">> },
  jsonb |-> { <<"{", "}">>, <<"[", "1", ",", " ", "2", "]">>, W("1.5"), W("true"), <<"\"", "\"">>, <<"\"", "a", "\\", "\"", "b", "\"">>, <<"\"", "\\", "\\", "\"">>, <<"\"", "N", "U", "L", "L", "\"">>,
             <<"{", "\"", "a", "\"", ":", " ", "[", "{", "\"", "b", "\"", ":", " ", "null", "}", ",", " ", "\"", "x,y", "\"", "]", "}">>, <<"\"", "U+00E9", "\"">> },
  xml |-> { <<"<doc><a>x</a></doc>">>, <<"<doc><a>", "\"", "'", " ", ",", "</a><b>1</b><b>", "{", "\\", "}", "</b></doc>">>, <<"<doc><a></a></doc>">>, <<"<doc><a>", "U+00E9", "</a></doc>">> },
  lexeme |-> { <<"'cat'">>, <<"'cat':2">>, <<"'fat':7", ",", "11">>, <<"'rat':2B", ",", "4C">>, <<"'a", " ", "b'">>, <<"'it''s'">>, <<"'x", "\\", "\\", "y'">>, <<"'z", "\"", "'">>, <<"'q", ",", "{", "'">> },
  tsquery |-> { <<"'rat'">>, <<"'fat'", " ", "&", " ", "'rat'">>, <<"!'fat':*", " ", "&", " ", "!'rat'">>, <<"'a''b'">>, <<"'a", "\"", "b'">>, <<"'x", "\\", "\\", "y'">> },
  circle |-> { <<"<", "(", "0", ",", "0", ")", ",", "3.5", ">">>, <<"<", "(", "-1.5", ",", "2", ")", ",", "0", ">">> } ]

\* the few that later elements of a list are taken from
Few(f) == IF f = "text" THEN FewStrings
          ELSE IF f \in {"timestamp"} THEN { <<"1999-01-08", " ", "04:05:06">>, <<"2000-02-29", " ", "12:00:00.000001">>, <<"9999-12-31", " ", "23:59:59.999">> }
          ELSE IF f \in {"timestamptz"} THEN { <<"1999-01-08", " ", "04:05:06", "+00">>, <<"2021-03-28", " ", "01:30:00.5", "+00">>, <<"9998-12-31", " ", "23:59:59.999999", "+00">> }
          ELSE IF f \in {"numeric", "int8"} THEN Words({"0", "-1", "9223372036854775807", "9007199254740993", "127"} \cup (IF f = "numeric" THEN {"1.5", "18446744073709551615"} ELSE {}))
          ELSE Atoms[f]

FewFloats == Words({"0", "-1", "1.5"})
Points == { L(<<A(x), A(y)>>) : x \in FewFloats, y \in FewFloats } \cup { L(<<A(x), A(x)>>) : x \in Atoms.float }
FewPoints == { L(<<A(x), A(y)>>) : x \in Words({"0", "-1.5"}), y \in Words({"0", "2"}) }

\* ranges: lower < upper, or an end left open
Bounds(f) == CASE f = "int4" -> <<"-2147483648", "-1", "0", "5", "127", "200", "65536", "2147483647">>
               [] f = "int8" -> <<"-9223372036854775808", "-1", "0", "5", "127", "4294967296", "9223372036854775807">>
               [] f = "numeric" -> <<"-1", "-0.25", "0", "1.5", "5", "127", "9223372036854775807", "18446744073709551615", "100000000000000000000">>
               [] f = "date" -> <<"0099-12-31", "1999-01-08", "2000-02-29", "9999-12-31">>
               [] OTHER -> <<>>
StampBounds(f) == LET z == IF f = "timestamptz" THEN <<"+00">> ELSE <<>> IN
               << <<"0099-12-31", " ", "04:05:06">> \o z, <<"1999-01-08", " ", "04:05:06">> \o z, <<"1999-01-08", " ", "04:05:06.000001">> \o z, <<"2021-10-31", " ", "01:30:00.5">> \o z, <<"9998-12-31", " ", "23:59:59.999">> \o z >>
BoundSeq(f) == IF f \in {"timestamp", "timestamptz"} THEN StampBounds(f) ELSE [ i \in 1..Len(Bounds(f)) |-> W(Bounds(f)[i]) ]
Ranges(f) == LET b == BoundSeq(f) n == Len(b) IN
  { L(<<A(b[p[1]]), A(b[p[2]])>>) : p \in { q \in (1..n) \X (1..n) : q[1] < q[2] } }
  \cup { L(<<Null, A(b[i])>>) : i \in 2..n } \cup { L(<<A(b[i]), Null>>) : i \in 2..n } \cup { L(<<Null, Null>>) }

\* hstores: at most two pairs, keys in the order PostgreSQL keeps them (by length, then by content)
HKeys == FewStrings
HVals == { A(s) : s \in FewStrings } \cup { Null }
KeyPairs == { << <<"a">>, <<"b">> >>, << <<"\"">>, <<"a">> >>, << <<>>, <<"N","U","L","L">> >>, << <<",">>, <<"=", ">">> >>, << <<"a">>, <<"\\", "\"">> >> }
HStores == { L(<<>>) } \cup { L(<<L(<<A(key), v>>)>>) : key \in HKeys, v \in HVals }
           \cup { L(<<L(<<A(kp[1]), v>>), L(<<A(kp[2]), w>>)>>) : kp \in KeyPairs, v \in HVals, w \in { Null, A(<<>>), A(<<"\\", "\"">>), A(<<"N","U","L","L">>) } }
FewHStores == { L(<<>>) } \cup { L(<<L(<<A(key), v>>)>>) : key \in {<<"a">>, <<"\\", "\"">>}, v \in { Null, A(<<>>), A(<<"\\">>), A(<<",", "\"">>) } }
              \cup { L(<<L(<<A(<<"a">>), Null>>), L(<<A(<<"b">>), A(<<"N">>)>>)>>) }

Vectors(f) == LET E == IF f = "lexeme" THEN { << <<"'cat'">>, <<"'fat':7", ",", "11">> >>, << <<"'a", " ", "b'">>, <<"'it''s'">> >>, << <<"'cat':2">>, <<"'q", ",", "{", "'">>, <<"'z", "\"", "'">> >> }
                           ELSE { <<W("1"), W("2")>>, <<W("-1"), W("0"), W("32767")>>, <<W("127"), W("-128")>> } IN
  { L(<<>>) } \cup { L(<<A(x)>>) : x \in Atoms[f] } \cup { L([ i \in 1..Len(s) |-> A(s[i]) ]) : s \in E }

\* every value of a structure that is not an array
Vals(t, few) ==
  CASE t.s = "atom" -> { A(c) : c \in (IF few THEN Few(t.f) ELSE Atoms[t.f]) }
    [] t.s = "range" -> Ranges(t.f)
    [] t.s = "vector" -> Vectors(t.f)
    [] t.s = "hstore" -> IF few THEN FewHStores ELSE HStores
    [] t.s = "tuple" /\ t = Point -> IF few THEN FewPoints ELSE Points
    [] t.s = "tuple" /\ t.n = 2 /\ t.o = "" -> \* boxes keep their upper right corner first
         { L(<<L(<<A(W("1.5")), A(W("2"))>>), L(<<A(W("0")), A(W("-1"))>>)>>), L(<<L(<<A(W("3")), A(W("3"))>>), L(<<A(W("3")), A(W("-0.25"))>>)>>), L(<<L(<<A(W("0")), A(W("0"))>>), L(<<A(W("-1")), A(W("-2.5"))>>)>>) }
    [] t.s = "tuple" /\ t.n = 2 -> { L(<<p, q>>) : p \in FewPoints, q \in FewPoints }
    [] t.s = "tuple" /\ t.n = 3 -> { L(<<A(x), A(y), A(z)>>) : x \in Words({"1", "-0.25"}), y \in FewFloats, z \in FewFloats }
    [] t.s = "tuple" /\ t.n = 0 -> { L(<<p>>) : p \in FewPoints } \cup { L(<<p, q>>) : p \in FewPoints, q \in FewPoints } \cup { L(<<p, q, p>>) : p \in FewPoints, q \in FewPoints }

--------------------------------------------------------------------------------
(* The text PostgreSQL holds.                                                  *)
Blank == {" ", "U+0009", "U+000A", "U+000B", "U+000C", "U+000D"}
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Esc(c) == FoldLeft(LAMBDA acc, x : acc \o (IF x \in {"\"", "\\"} THEN <<"\\", x>> ELSE <<x>>), <<>>, c)
Dbl(c) == FoldLeft(LAMBDA acc, x : acc \o (IF x \in {"\"", "\\"} THEN <<x, x>> ELSE <<x>>), <<>>, c)
Upper(x) == IF x = "n" THEN "N" ELSE IF x = "u" THEN "U" ELSE IF x = "l" THEN "L" ELSE x
NullLike(c) == [ i \in 1..Len(c) |-> Upper(c[i]) ] = <<"N", "U", "L", "L">>
NeedsQuote(c, d) == c = <<>> \/ c = <<"">> \/ NullLike(c)
                    \/ \E i \in 1..Len(c) : c[i] \in Blank \cup {"\"", "\\", "{", "}", d}
Quoted(c) == <<"\"">> \o Esc(c) \o <<"\"">>
RangeQuote(c) == IF \E i \in 1..Len(c) : c[i] \in Blank \cup {"\"", "\\", "(", ")", "[", "]", ","} THEN <<"\"">> \o Dbl(c) \o <<"\"">> ELSE c

RECURSIVE Out(_, _)
Out(t, v) ==
  CASE t.s = "atom" -> v.c
    [] t.s = "vector" -> Join([ i \in 1..Len(v.e) |-> v.e[i].c ], <<" ">>)
    [] t.s = "tuple" -> (IF t.o = "" THEN <<>> ELSE <<t.o>>) \o Join([ i \in 1..Len(v.e) |-> Out(t.of, v.e[i]) ], <<",">>) \o (IF t.c = "" THEN <<>> ELSE <<t.c>>)
    [] t.s = "range" -> <<IF IsNull(v.e[1]) THEN "(" ELSE "[">> \o RangeQuote(v.e[1].c) \o <<",">> \o RangeQuote(v.e[2].c) \o <<")">>
    [] t.s = "hstore" -> Join([ i \in 1..Len(v.e) |-> Quoted(v.e[i].e[1].c) \o <<"=", ">">> \o
                                 (IF IsNull(v.e[i].e[2]) THEN <<"NULL">> ELSE Quoted(v.e[i].e[2].c)) ], <<",", " ">>)
    [] t.s = "array" -> <<"{">> \o Join([ i \in 1..Len(v.e) |->
                                 IF IsNull(v.e[i]) THEN <<"NULL">>
                                 ELSE LET c == Out(t.of, v.e[i]) IN IF NeedsQuote(c, t.d) THEN Quoted(c) ELSE c ], <<t.d>>) \o <<"}">>

--------------------------------------------------------------------------------
(* Reading array text back, token by token: the notation is unambiguous.       *)
RECURSIVE Elems(_, _, _, _, _, _)
\* rest, delimiter, current element, in quotes, was quoted, elements so far
Elems(r, d, cur, inq, wasq, acc) ==
  LET done == Append(acc, IF ~wasq /\ NullLike(cur) THEN Null ELSE IF ~wasq /\ cur = <<"NULL">> THEN Null ELSE A(cur)) IN
  IF r = <<>> THEN done
  ELSE IF inq THEN
       IF Head(r) = "\\" THEN Elems(Tail(Tail(r)), d, Append(cur, r[2]), TRUE, TRUE, acc)
       ELSE IF Head(r) = "\"" THEN Elems(Tail(r), d, cur, FALSE, TRUE, acc)
       ELSE Elems(Tail(r), d, Append(cur, Head(r)), TRUE, TRUE, acc)
  ELSE IF Head(r) = "\"" THEN Elems(Tail(r), d, cur, TRUE, TRUE, acc)
  ELSE IF Head(r) = d THEN Elems(Tail(r), d, <<>>, FALSE, FALSE, done)
  ELSE Elems(Tail(r), d, Append(cur, Head(r)), FALSE, FALSE, acc)
ArrayIn(text, d) == IF text = <<"{", "}">> THEN L(<<>>) ELSE L(Elems(SubSeq(text, 2, Len(text) - 1), d, <<>>, FALSE, FALSE, <<>>))

--------------------------------------------------------------------------------
VARIABLES ty, val, pc, text, got
vars == <<ty, val, pc, text, got>>

Init == /\ ty \in Types
        /\ pc = "build"
        /\ text = <<>> /\ got = Null
        /\ IF IsArray(ty) THEN val = L(<<>>) ELSE val \in { Null } \cup Vals(TypeOf(ty), FALSE)

Small(x) == x \in { Null } \cup Vals(TypeOf(ty).of, TRUE)
AddElem == /\ pc = "build" /\ IsArray(ty) /\ ~IsNull(val) /\ Len(val.e) < MaxLen
           /\ \E x \in { Null } \cup Vals(TypeOf(ty).of, Len(val.e) > 0) :
                /\ Lists = "few" /\ val.e # <<>> => Small(val.e[1])
                /\ val' = L(Append(val.e, x))
           /\ UNCHANGED <<ty, pc, text, got>>
SendNothing == /\ pc = "build" /\ IsArray(ty) /\ val = L(<<>>) /\ val' = Null /\ UNCHANGED <<ty, pc, text, got>>
Send == /\ pc = "build" /\ pc' = "stored"
        /\ text' = (IF IsNull(val) THEN <<>> ELSE Out(TypeOf(ty), val))
        /\ UNCHANGED <<ty, val, got>>
Read == /\ pc = "stored" /\ pc' = "read"
        /\ got' = (IF IsNull(val) THEN Null ELSE IF IsArray(ty) THEN ArrayIn(text, TypeOf(ty).d) ELSE val)
        /\ UNCHANGED <<ty, val, text>>
Next == AddElem \/ SendNothing \/ Send \/ Read
Spec == Init /\ [][Next]_vars

\* what was read is what was written
Faithful == pc = "read" =>
  IF IsNull(val) THEN IsNull(got)
  ELSE IF IsArray(ty) THEN
       /\ Len(got.e) = Len(val.e)
       /\ \A i \in 1..Len(val.e) : IsNull(val.e[i]) = IsNull(got.e[i])
                                   /\ ~IsNull(val.e[i]) => got.e[i].c = Out(TypeOf(ty).of, val.e[i])
  ELSE got = val
=============================================================================
