------------------------------- MODULE RelGen -------------------------------
(* The space of descriptions: a deterministic choice function maps a number to *)
(* a description, so that any range of numbers samples the space evenly and    *)
(* every behaviour can be named by its number.                                 *)
EXTENDS RelSem, Choices

(* ------------------------------------------------------------- values -- *)
Texts == << <<>>, <<37>>, <<65>>, <<65, 66>>, <<95>>, <<97>>, <<97, 37>>, <<97, 98>>, <<98>>, <<105, 116, 39, 115>>, <<97, 95, 98>> >>
Ints == << <<0>>, <<1>>, <<2>>, <<3>>, <<7>>, <<-1>>, <<5>> >>
Bools == << <<0>>, <<1>> >>
Pool(ty) == CASE ty = "int" -> Ints [] ty = "text" -> Texts [] ty = "bool" -> Bools
Lists(ty) == CASE ty = "int" -> << << <<1>> >>, << <<1>>, <<2>>, <<3>> >>, << <<7>>, <<5>> >>, << <<0>>, <<0>> >> >>
               [] ty = "text" -> << << <<97>> >>, << <<97, 98>>, <<65>> >>, << <<97, 37>>, <<>>, <<98>> >>, << <<95>> >> >>
               [] ty = "bool" -> << << <<1>> >>, << <<0>>, <<1>> >> >>
(* the value a field takes in a run *)
FieldVal(x, k, ty, go) ==
  CASE go = "v" -> Pick(x, k, Pool(ty))
    [] go = "p" -> IF Chance(x, k + 50, 20) THEN Nul ELSE Pick(x, k, Pool(ty))
    [] go = "in" -> Pick(x, k, Lists(ty))
    [] go = "qua" -> IF Chance(x, k + 50, 12) THEN <<>> ELSE IF Chance(x, k + 51, 12) THEN <<Nul, Nul>> ELSE Pick(x, k, Lists(ty))
    [] go = "num" -> <<Upto(x, k, 4)>>

(* ----------------------------------------------------------- databases -- *)
OrNul(x, k, v) == IF Chance(x, k, 25) THEN Nul ELSE v
DB(x) ==
  LET nt == IF Chance(x, 1, 6) THEN 0 ELSE 2 + Upto(x, 2, 4)
      nu == IF Chance(x, 3, 8) THEN 0 ELSE 1 + Upto(x, 4, 3)
      nv == Upto(x, 5, 3)
  IN [ t |-> [ i \in 1..nt |-> TRow(i, OrNul(x, 10 + i, Pick(x, 20 + i, Ints)), Pick(x, 30 + i, Ints)[1],
                                    OrNul(x, 40 + i, Pick(x, 50 + i, Texts)),
                                    Texts[((i * 2 + Upto(x, 6, 4)) % Len(Texts)) + 1],   \* distinct for up to 6 rows? see ASSUME in MC
                                    OrNul(x, 60 + i, Pick(x, 70 + i, Bools))) ],
       u |-> [ i \in 1..nu |-> URow(i, OrNul(x, 80 + i, <<Upto(x, 90 + i, 6)>>), OrNul(x, 100 + i, Pick(x, 110 + i, Ints)),
                                    OrNul(x, 120 + i, Pick(x, 130 + i, Texts))) ],
       v |-> [ i \in 1..nv |-> VRow(i, OrNul(x, 140 + i, <<Upto(x, 150 + i, 4)>>), OrNul(x, 160 + i, Pick(x, 170 + i, Ints))) ] ]

(* ---------------------------------------------------------- conditions -- *)
Col(q, c) == [ o |-> "col", q |-> q, c |-> c ]
AllColsOf(tabs) == FoldLeft(LAMBDA acc, tb : acc \o [ i \in 1..Len(Cols[tb]) |-> Col(tb, Cols[tb][i]) ], <<>>, tabs)
ColsOf(tabs) == SelectSeq(AllColsOf(tabs), LAMBDA c : TypeOf[c.c] \in {"int", "text", "bool"})
ColsTyped(tabs, ty) == SelectSeq(ColsOf(tabs), LAMBDA c : TypeOf[c.c] = ty)
(* IS [NOT] NULL is refused on a NOT NULL column of the main relation *)
Nullables(tabs) == SelectSeq(ColsOf(tabs), LAMBDA c : c.q # tabs[1] \/ c.c \notin NotNull[c.q])

IntOps == <<"", "=", "<>", "!=", "<", ">", "<=", ">=", "isdistinct", "notdistinct", "=", "<", ">=">>
BoolOps == <<"", "=", "<>", "isdistinct", "notdistinct", ">">>
TextOps == <<"=", "<>", "<", ">=", "isdistinct", "notdistinct", "islike", "notlike", "isilike", "notilike", "issimilar", "notsimilar",
             "~", "!~", "~*", "!~*", "", "islike">>
OpsFor(ty) == CASE ty = "int" -> IntOps [] ty = "text" -> TextOps [] ty = "bool" -> BoolOps
QuaOps(ty) == CASE ty = "int" -> <<"=", "<>", "<", ">=", ">">> [] ty = "text" -> <<"=", "<>", "islike", "notlike", "isilike", "~", "!~*", "<">> [] ty = "bool" -> <<"=", "<>">>
RegexOps == {"~", "!~", "~*", "!~*"}

Sl(path, n) == path \o ToString(n)
OpMean(op) == IF op = "" THEN "=" ELSE op
Fld(slot, ty, go) == [ o |-> "fld", slot |-> slot, ty |-> ty, go |-> go ]

RECURSIVE GenItems(_, _, _, _)
GenItem(x, tabs, path, n, depth) ==
  LET bool == IF n = 1 THEN Pick(x, 1, <<"", "", "or">>) ELSE Pick(x, 1, <<"", "and", "or", "or">>)
      l == Pick(x, 2, ColsOf(tabs))
      ty == TypeOf[l.c]
      slot == Sl(path, n)
      go == Pick(x, 3, <<"v", "v", "p">>)
      k == Upto(x, 4, 99)
  IN
  IF k < 34 THEN [ k |-> "cmp", l |-> l, op |-> Pick(x, 5, OpsFor(ty)), qua |-> "", 
                   fn |-> IF ty = "text" /\ Chance(x, 6, 30) THEN Pick(x, 7, <<"lower", "upper">>) ELSE "",
                   r |-> Fld(slot, ty, go), bool |-> bool ]
  ELSE IF k < 42 THEN [ k |-> "cmp", l |-> l, op |-> Pick(x, 5, SelectSeq(OpsFor(ty), LAMBDA o : o # "")), qua |-> "", fn |-> "",
                        r |-> Pick(x, 8, ColsTyped(tabs, ty)), bool |-> bool ]
  ELSE IF k < 52 /\ ty # "bool" THEN
                      [ k |-> "cmp", l |-> l, op |-> Pick(x, 5, SelectSeq(OpsFor(ty), LAMBDA o : o # "")), qua |-> "", fn |-> "",
                        r |-> [ o |-> "lit", ty |-> ty, v |-> Pick(x, 9, Pool(ty)) ], bool |-> bool ]
  ELSE IF k < 62 THEN [ k |-> "in", l |-> l, neg |-> Chance(x, 10, 40), r |-> Fld(slot, ty, "in"), bool |-> bool ]
  ELSE IF k < 72 THEN [ k |-> "cmp", l |-> l, op |-> Pick(x, 5, QuaOps(ty)), qua |-> Pick(x, 11, <<"any", "some", "all">>), fn |-> "",
                        r |-> Fld(slot, ty, "qua"), bool |-> bool ]
  ELSE IF k < 80 THEN LET c == Pick(x, 12, Nullables(tabs)) IN
                      IF tabs[1] = "t" /\ Chance(x, 13, 35)
                      THEN [ k |-> "un", l |-> Col("t", "f"), op |-> Pick(x, 14, <<"istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown">>), bool |-> bool ]
                      ELSE [ k |-> "un", l |-> c, op |-> Pick(x, 14, <<"isnull", "notnull">>), bool |-> bool ]
  ELSE IF k < 89 /\ ty # "bool" THEN
                      [ k |-> "btw", l |-> l, neg |-> Chance(x, 15, 40), sym |-> Pick(x, 16, <<"", "", "sym", "asym">>),
                        lo |-> IF Chance(x, 17, 25) THEN Pick(x, 18, ColsTyped(tabs, ty)) ELSE Fld(slot \o "x", ty, go),
                        hi |-> IF Chance(x, 19, 25) THEN Pick(x, 20, ColsTyped(tabs, ty)) ELSE Fld(slot \o "y", ty, go),
                        names |-> Pick(x, 21, <<"xy", "lu">>), swap |-> Chance(x, 22, 30), bool |-> bool ]
  ELSE IF depth > 0 THEN [ k |-> "nest", items |-> GenItems(Mix(x, 23), tabs, slot \o "_", depth - 1), slot |-> slot, bool |-> bool ]
  ELSE [ k |-> "cmp", l |-> ColsTyped(tabs, "int")[2], op |-> Pick(x, 5, IntOps), qua |-> "", fn |-> "", r |-> Fld(slot, "int", go), bool |-> bool ]
GenItems(x, tabs, path, depth) ==
  LET n == Pick(x, 1, <<1, 1, 2, 2, 2, 3, 3, 4>>) IN
  [ j \in 1..n |-> GenItem(Mix(x, 100 + j), tabs, path, j, depth) ]

(* the written operator "" means "=", "asym" means nothing: the meaning of an item *)
RECURSIVE Meaning(_)
Meaning(items) ==
  [ j \in 1..Len(items) |->
      LET i == items[j] IN
      IF i.k = "cmp" THEN [i EXCEPT !.op = OpMean(i.op)]
      ELSE IF i.k = "btw" THEN [i EXCEPT !.sym = (i.sym = "sym")]
      ELSE IF i.k = "nest" THEN [i EXCEPT !.items = Meaning(i.items)]
      ELSE i ]

(* the fields of a condition *)
OpFields(o) == IF o.o = "fld" THEN <<o>> ELSE <<>>
RECURSIVE Fields(_)
Fields(items) == FoldLeft(LAMBDA acc, i : acc \o (CASE i.k = "cmp" -> OpFields(i.r) [] i.k = "in" -> OpFields(i.r) [] i.k = "un" -> <<>>
                             [] i.k = "btw" -> OpFields(i.lo) \o OpFields(i.hi) [] i.k = "nest" -> Fields(i.items)), <<>>, items)

(* ---------------------------------------------------------------- joins -- *)
OnEq(q, c, r) == [ k |-> "cmp", l |-> Col(q, c), op |-> "=", qua |-> "", fn |-> "", r |-> r, bool |-> "" ]
Extra(x, q, tabs) ==
  CASE Upto(x, 1, 3) = 0 -> [ k |-> "un", l |-> Pick(x, 2, SelectSeq(Nullables(<<q>>), LAMBDA c : c.c # "id")), op |-> Pick(x, 3, <<"isnull", "notnull">>), bool |-> "and" ]
    [] Upto(x, 1, 3) = 1 -> [ k |-> "cmp", l |-> Pick(x, 2, ColsTyped(<<q>>, "int")), op |-> Pick(x, 4, <<"<", ">=", "<>", "isdistinct">>), qua |-> "", fn |-> "",
                              r |-> [ o |-> "lit", ty |-> "int", v |-> Pick(x, 5, Ints) ], bool |-> "and" ]
    [] OTHER -> [ k |-> "cmp", l |-> Pick(x, 2, ColsTyped(<<q>>, "int")), op |-> Pick(x, 4, <<"<", ">=", "<>", "notdistinct">>), qua |-> "", fn |-> "",
                  r |-> Pick(x, 6, ColsTyped(tabs, "int")), bool |-> "and" ]
JTypes == <<"inner", "left", "left", "right", "full", "cross">>
GenJoin(x, tab, tabs, base) ==
  LET ty == Pick(x, 1, JTypes)
      eq == OnEq(tab, IF tab = "u" THEN "t_id" ELSE "u_id", base)
      conn == Pick(x, 2, <<"and", "or">>)
      more == IF ty # "full" /\ Chance(x, 3, 45) THEN <<[Extra(Mix(x, 4), tab, tabs) EXCEPT !.bool = conn]>> ELSE <<>>
  IN [ type |-> ty, tab |-> tab, on |-> IF ty = "cross" THEN <<>> ELSE <<eq>> \o more ]
GenJoins(x) ==
  LET k == Upto(x, 1, 99)
      ju == GenJoin(Mix(x, 2), "u", <<"t">>, Col("t", "id"))
      jv == GenJoin(Mix(x, 3), "v", <<"t", "u">>, Col("u", "id"))
  IN IF k < 50 THEN <<>> ELSE IF k < 80 THEN <<ju>> ELSE <<ju, jv>>
Tabs(joins) == <<"t">> \o [ i \in 1..Len(joins) |-> joins[i].tab ]

(* -------------------------------------------------------------- selects -- *)
GenOrder(x, tabs) ==
  LET n == Pick(x, 1, <<1, 1, 2, 2, 3>>) IN
  [ j \in 1..n |-> LET c == Pick(x, 10 + j, ColsOf(tabs)) nf == Pick(x, 20 + j, <<"", "nullsfirst", "nullslast">>) IN
      [ q |-> c.q, c |-> c.c, desc |-> Chance(x, 30 + j, 50), opt |-> nf, nf |-> (nf = "nullsfirst") ] ]
GenNum(x, slot) == CASE Upto(x, 1, 2) = 0 -> [ k |-> "dir", n |-> 1 + Upto(x, 2, 2) ]
                     [] Upto(x, 1, 2) = 1 -> [ k |-> "fld", slot |-> slot, ty |-> Pick(x, 4, <<"int", "int64", "uint", "uint32">>), go |-> "num", dflt |-> 0 ]
                     [] OTHER -> [ k |-> "fld", slot |-> slot, ty |-> Pick(x, 4, <<"int", "int64", "uint8">>), go |-> "num", dflt |-> 1 + Upto(x, 3, 2) ]
None == [ k |-> "none" ]
(* A filter in place of a condition: a range of a column, or nothing, and what it
   says about order and size. *)
GenSelFilt(x, tabs, kind) ==
  LET c == Pick(x, 1, ColsTyped(tabs, "int")) IN
  [ q |-> c.q, c |-> c.c, empty |-> Chance(x, 2, 15),
    order |-> IF kind # "count" /\ Chance(x, 3, 50) THEN GenOrder(Mix(x, 4), tabs) ELSE <<>>,
    lim |-> IF kind # "count" /\ Chance(x, 5, 40) THEN 1 + Upto(x, 6, 2) ELSE 0,
    off |-> IF kind # "count" /\ Chance(x, 7, 30) THEN 1 + Upto(x, 8, 2) ELSE 0 ]
NoSelFilt == [ q |-> "", c |-> "", empty |-> TRUE, order |-> <<>>, lim |-> 0, off |-> 0 ]
FiltItem(f, op, slot) == [ k |-> "cmp", l |-> Col(f.q, f.c), op |-> op, qua |-> "", fn |-> "", r |-> Fld(slot, "int", IF slot = "Min" THEN "num" ELSE "v"), bool |-> "and" ]
OrNone(n) == IF n = 0 THEN None ELSE [ k |-> "dir", n |-> n ]
(* the description without a filter that says the same *)
Spelled(d) ==
  IF d.wmode # "filter" THEN d
  ELSE [d EXCEPT !.where = IF d.filt.empty THEN <<>> ELSE << FiltItem(d.filt, ">=", "Min"), FiltItem(d.filt, "<", "Max") >>,
                 !.order = d.filt.order, !.limit = OrNone(d.filt.lim), !.offset = OrNone(d.filt.off)]
Kinds == <<"one", "slice", "slice", "slice", "iter", "iterp", "count", "exists", "notexists">>
GenSelect(x) ==
  LET kind == Pick(x, 1, Kinds)
      joins == GenJoins(Mix(x, 2))
      tabs == Tabs(joins)
      wmode == IF Chance(x, 4, 70) THEN "where" ELSE IF Chance(x, 4, 85) THEN "filter" ELSE "none"
      \* a count has no order, limit or offset; a filter brings its own
      plain == kind # "count" /\ wmode # "filter"
      outer == \E i \in 1..Len(joins) : joins[i].type \in {"right", "full"}
  IN [ op |-> "select", kind |-> kind, joins |-> joins,
       alias |-> Pick(x, 3, <<"alias", "alias", "bare", "schema">>),
       wmode |-> wmode,
       where |-> IF wmode = "where" THEN GenItems(Mix(x, 5), tabs, "F", 2) ELSE <<>>,
       filt |-> IF wmode = "filter" THEN GenSelFilt(Mix(x, 15), tabs, kind) ELSE NoSelFilt,
       order |-> IF plain /\ Chance(x, 6, 55) THEN GenOrder(Mix(x, 7), tabs) ELSE <<>>,
       limit |-> IF plain /\ Chance(x, 8, 40) THEN GenNum(Mix(x, 9), "Limit") ELSE None,
       offset |-> IF plain /\ Chance(x, 10, 30) THEN GenNum(Mix(x, 11), "Offset") ELSE None,
       rec |-> IF outer THEN "RecP" ELSE Pick(x, 12, <<"RecP", "RecV", "RecN">>),
       ptr |-> Chance(x, 13, 50), uq |-> Chance(x, 14, 30) ]
NumFields(n) == IF n.k = "fld" THEN <<n>> ELSE <<>>
SelFields(d) == Fields(d.where) \o NumFields(d.limit) \o NumFields(d.offset)
ArgsOf(fs, x) == [ s \in {fs[i].slot : i \in 1..Len(fs)} |->
                     LET i == CHOOSE i \in 1..Len(fs) : fs[i].slot = s IN FieldVal(x, i, IF fs[i].go = "num" THEN "int" ELSE fs[i].ty, fs[i].go) ]
=============================================================================
