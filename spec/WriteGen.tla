------------------------------ MODULE WriteGen ------------------------------
(* The space of write descriptions: records with options, updates, deletes,    *)
(* inserts and reads through optioned records.                                 *)
EXTENDS RelGen

(* ------------------------------------------------------------ databases -- *)
WriteDB(x) == DB(x) @@
  LET nck == Upto(x, 201, 4)  ne == Upto(x, 202, 3)  ng == Upto(x, 203, 2) IN
  [ ck |-> [ i \in 1..nck |-> [ x |-> <<1 + (i \div 2)>>, y |-> <<1 + (i % 2)>>, n |-> OrNul(x, 210 + i, Pick(x, 220 + i, Texts)),
                                m |-> OrNul(x, 230 + i, Pick(x, 240 + i, Ints)) ] ],
    \* keys kept apart: lower(p) and w_q take each value once
    e |-> [ i \in 1..ne |-> [ id |-> <<i>>, p |-> OrNul(x, 250 + i, << <<97>>, <<66>>, <<97, 98>>, <<65, 95>> >>[i]),
                              w_q |-> OrNul(x, 260 + i, <<i>>), w_z |-> OrNul(x, 270 + i, Pick(x, 280 + i, Ints)),
                              j |-> OrNul(x, 290 + i, Pick(x, 300 + i, Ints)), xm |-> OrNul(x, 310 + i, Pick(x, 320 + i, Ints)) ] ],
    g |-> [ i \in 1..ng |-> [ id |-> <<i>>, a |-> OrNul(x, 330 + i, Pick(x, 340 + i, Ints)) ] ] ]

(* -------------------------------------------------------------- options -- *)
(* An option adds or removes abilities: select, filter, insert, update.      *)
Opt(t, add, ch) == [ t |-> t, add |-> add, ch |-> ch ]
All4 == {"s", "f", "i", "u"}
OptPool == << Opt("ro", FALSE, {"i", "u"}), Opt("wo", FALSE, {"s", "f"}), Opt("xf", FALSE, {"f"}), Opt("nn", FALSE, {}),
              Opt("-r", FALSE, {"s", "f"}), Opt("-w", FALSE, {"i", "u"}), Opt("-s", FALSE, {"s"}), Opt("-f", FALSE, {"f"}),
              Opt("-i", FALSE, {"i"}), Opt("-u", FALSE, {"u"}), Opt("-iu", FALSE, {"i", "u"}), Opt("-si", FALSE, {"s", "i"}), Opt("-us", FALSE, {"s", "u"}),
              Opt("-rw", FALSE, All4), Opt("-N", FALSE, {}), Opt("+N", TRUE, {}),
              Opt("+i", TRUE, {"i"}), Opt("+u", TRUE, {"u"}), Opt("+s", TRUE, {"s"}), Opt("+rw", TRUE, All4), Opt("+f", TRUE, {"f"}) >>
Mode(opts) == FoldLeft(LAMBDA m, o : IF o.add THEN m \cup o.ch ELSE m \ o.ch, All4, opts)
GenOpts(x, dens) == IF ~Chance(x, 1, dens) THEN <<>>
                    ELSE IF Chance(x, 2, 75) THEN <<Pick(x, 3, OptPool)>> ELSE <<Pick(x, 3, OptPool), Pick(x, 4, OptPool)>>

(* -------------------------------------------------------------- records -- *)
(* field: [c, ty, go, opts, def, co, cov, grp]; grp 0 is the record itself, grp n the
   n-th nested struct.  go: v value, t named type, p pointer, n sql.Null type,
   j/jp JSON or XML struct and pointer to it.  co: "-" no coalesce option,
   "zero" coalesce, "val" coalesce(cov). *)
GoKinds(ty) == CASE ty = "int" -> <<"v", "v", "p", "n", "t">> [] ty = "text" -> <<"v", "v", "p", "n", "t">>
                 [] ty = "bool" -> <<"v", "p", "n", "t">> [] ty \in {"json", "xml"} -> <<"j", "jp">>
ZeroOf(ty) == IF ty = "text" THEN <<>> ELSE <<0>>
CoVal(ty) == CASE ty = "int" -> <<9>> [] ty = "text" -> <<122, 122>> [] ty = "bool" -> <<1>>
GenField(x, c, dens, deflt, ngrp) ==
  LET ty == TypeOf[c]  co == IF ty \in {"json", "xml"} \/ ~Chance(x, 5, dens \div 2) THEN "-" ELSE Pick(x, 6, <<"zero", "val">>) IN
  [ c |-> c, ty |-> ty, go |-> Pick(x, 1, GoKinds(ty)), opts |-> GenOpts(Mix(x, 2), dens),
    def |-> deflt /\ Chance(x, 3, dens), co |-> co, cov |-> IF co = "val" THEN CoVal(ty) ELSE <<>>, 
    grp |-> IF ~Chance(x, 4, IF ngrp > 3 THEN 60 ELSE 30) THEN 0 ELSE IF ngrp = 5 THEN Pick(x, 7, << 2, 3, 4, 4, 5, 5 >>) ELSE Upto(x, 7, ngrp) ]
(* columns that can be asked to take their default: the tool does not count identities *)
Defaulted == [HasDefault EXCEPT !.g = {}]
(* cols: the columns of the record, in order *)
GenRec(x, tab, cols, dens, defaults) ==
  LET ng == Pick(x, 1, <<0, 0, 1, 2, 2, 4, 5>>)
      \* a nested struct is in the record itself or in another nested struct
      Par(i) == IF tab = "e" THEN 0 ELSE IF ng = 4 THEN << 0, 0, 1, 2 >>[i] ELSE IF ng = 5 THEN << 0, 1, 2, 3, 3 >>[i] ELSE IF i = 2 /\ Chance(x, 8, 50) THEN 1 ELSE 0
      order == IF ng = 4 /\ tab # "e" THEN << 0, 1, 3, 2, 4 >> ELSE [ i \in 1..ng + 1 |-> i - 1 ]
      fs == [ i \in 1..Len(cols) |-> LET f == GenField(Mix(x, 10 + i), cols[i], dens, defaults /\ cols[i] \in Defaulted[tab], ng) IN
                IF tab = "e" /\ cols[i] \in {"w_q", "w_z"} /\ ng > 0 THEN [f EXCEPT !.grp = 1]
                ELSE IF tab = "e" /\ f.grp = 1 THEN [f EXCEPT !.grp = 0] ELSE f ]
  IN [ tab |-> tab, groups |-> [ i \in 1..ng |-> [ pre |-> IF tab = "e" /\ i = 1 THEN "w_" ELSE "", ptr |-> Chance(x, 20 + i, 50), par |-> Par(i),
                                                 opts |-> GenOpts(Mix(x, 30 + i), dens \div 3) ] ],
       \* fields of one struct stand together: the record's own, then each group's, with the groups in it
       fields |-> FlattenSeq([ k \in 1..ng + 1 |-> SelectSeq(fs, LAMBDA f : f.grp = order[k]) ]) ]
(* the nested structs a field is in *)
RECURSIVE Chain(_, _)
Chain(rec, g) == IF g = 0 THEN {} ELSE {g} \cup Chain(rec, rec.groups[g].par)
Abil(rec, f) == Mode(f.opts) \cap { c \in All4 : \A g \in Chain(rec, f.grp) : c \in Mode(rec.groups[g].opts) }
HasField(rec, c) == \E i \in 1..Len(rec.fields) : rec.fields[i].c = c
FieldOf(rec, c) == rec.fields[CHOOSE i \in 1..Len(rec.fields) : rec.fields[i].c = c]
(* lists of columns in directives: a set of names, with "*" for all *)
InList(c, l) == l # <<>> /\ (l[1] = "*" \/ \E i \in 1..Len(l) : l[i] = c)
Writes(d, ab) == SelectSeq(d.rec.fields, LAMBDA f : ab \in Abil(d.rec, f) \/ InList(f.c, d.force))
Readable(rec, force) == SelectSeq(rec.fields, LAMBDA f : "s" \in Abil(rec, f) \/ InList(f.c, force))
Subseq(x, s, pct) == SelectSeq([ i \in 1..Len(s) |-> IF Chance(x, 400 + i, pct) THEN s[i] ELSE [c |-> "-"] ], LAMBDA q : q # [c |-> "-"])
SubNames(x, s, pct) == SelectSeq([ i \in 1..Len(s) |-> IF Chance(x, 400 + i, pct) THEN s[i] ELSE "-" ], LAMBDA q : q # "-")
Names(fs) == [ i \in 1..Len(fs) |-> fs[i].c ]
(* any order: rotate, and perhaps reverse *)
Shuffle(x, s) == LET n == Len(s) k == IF n = 0 THEN 0 ELSE Upto(x, 1, n - 1)
                     r == [ i \in 1..n |-> s[((i - 1 + k) % n) + 1] ] IN IF Chance(x, 2, 40) THEN Reverse(r) ELSE r

(* the value given to a field *)
FieldGiven(x, k, f) == IF f.go \in {"p", "n", "jp"} /\ Chance(x, k + 50, 22) THEN Nul ELSE Pick(x, k, Pool(IF f.ty \in {"json", "xml"} THEN "int" ELSE f.ty))

(* -------------------------------------------------------------- outputs -- *)
(* out: none | ret (list of names or "*") | res (another record: one, slice, iter) | aff *)
NoOut == [ k |-> "none" ]
GenRes(x, tab, dens) ==
  LET cols == Shuffle(Mix(x, 1), SubNames(Mix(x, 2), Cols[tab], 60))
      rec == GenRec(Mix(x, 3), tab, IF cols = <<>> THEN <<Cols[tab][1]>> ELSE cols, dens, FALSE)
  IN rec
GenOut(x, tab, rec, force, dens) ==
  LET k == Upto(x, 1, 99)
      rd == Names(Readable(rec, force))
      list == Shuffle(Mix(x, 2), SubNames(Mix(x, 3), rd, 60))
      res == GenRes(Mix(x, 4), tab, dens)
  IN IF k < 30 THEN NoOut
     ELSE IF k < 55 THEN IF rd = <<>> THEN NoOut ELSE [ k |-> "ret", list |-> IF list = <<>> \/ Chance(x, 5, 40) THEN <<"*">> ELSE list ]
     ELSE IF k < 80 THEN IF Readable(res, force) = <<>> THEN NoOut ELSE [ k |-> "res", rec |-> res, shape |-> Pick(x, 6, <<"one", "slice", "slice", "iter">>), ptr |-> Chance(x, 7, 50) ]
     ELSE [ k |-> "aff" ]

Spell(x) == Pick(x, 1, <<"alias", "alias", "bare", "schema">>)

(* ---------------------------------------------------- updates, deletes -- *)
GenFrom(x) ==
  LET k == Upto(x, 1, 99)  ty == Pick(x, 2, <<"inner", "left", "cross">>)
      on == IF ty = "cross" THEN <<>> ELSE <<OnEq("v", "u_id", Col("u", "id"))>>
              \o (IF Chance(x, 3, 40) THEN <<[Extra(Mix(x, 4), "v", <<"u">>) EXCEPT !.bool = Pick(x, 5, <<"and", "or">>)]>> ELSE <<>>)
  IN IF k < 65 THEN <<>> ELSE IF k < 85 THEN << [ type |-> "from", tab |-> "u", on |-> <<>> ] >>
     ELSE << [ type |-> "from", tab |-> "u", on |-> <<>> ], [ type |-> ty, tab |-> "v", on |-> on ] >>
(* a condition over target and joined tables, usually tying them together *)
GenWhere(x, tab, from) ==
  LET tabs == <<tab>> \o [ i \in 1..Len(from) |-> from[i].tab ]
      its == GenItems(Mix(x, 1), tabs, "F", 2)
      tie == [ k |-> "cmp", l |-> Col(tab, IF tab = "ck" THEN "x" ELSE "id"), op |-> "=", qua |-> "", fn |-> "", r |-> Col("u", "t_id"), bool |-> "" ]
  IN IF from # <<>> /\ Chance(x, 2, 75) THEN <<tie>> \o [ i \in 1..Len(its) |-> IF i = 1 THEN [its[i] EXCEPT !.bool = "and"] ELSE its[i] ] ELSE its
GenFilt(x, tab) == LET c == Pick(x, 1, ColsTyped(<<tab>>, "int")) IN [ q |-> c.q, c |-> c.c, empty |-> Chance(x, 2, 12) ]
NoFilt == [ q |-> "", c |-> "", empty |-> TRUE ]
Bys == <<"where", "where", "where", "filter", "all">>

GenDelete(x, dens) ==
  LET tab == Pick(x, 1, <<"t", "t", "t", "ck", "e">>)
      by == Pick(x, 2, Bys)
      from == IF by = "where" /\ tab # "e" THEN GenFrom(Mix(x, 3)) ELSE <<>>
      cols == Shuffle(Mix(x, 4), SubNames(Mix(x, 5), Cols[tab], 75))
      rec == GenRec(Mix(x, 6), tab, IF cols = <<>> THEN Cols[tab] ELSE cols, dens, FALSE)
      out == GenOut(Mix(x, 7), tab, rec, <<>>, dens)
  IN [ op |-> "delete", tab |-> tab, alias |-> Spell(Mix(x, 8)), uq |-> Chance(x, 9, 30), by |-> by, from |-> from,
       where |-> IF by = "where" THEN GenWhere(Mix(x, 10), tab, from) ELSE <<>>,
       filt |-> IF by = "filter" THEN GenFilt(Mix(x, 11), tab) ELSE NoFilt,
       rec |-> rec, dir |-> out.k # "ret" /\ Chance(x, 12, 70), out |-> out, ptr |-> Chance(x, 13, 50), slice |-> Chance(x, 14, 60), 
       force |-> <<>>, deflt |-> <<>> ]

GenUpdate(x, dens) ==
  LET pk == Chance(x, 1, 45)
      tab == Pick(x, 2, <<"t", "t", "t", "ck", "e">>)
      slice == pk /\ Chance(x, 3, 50)
      by == IF pk THEN "pk" ELSE Pick(x, 4, Bys)
      from == IF by = "where" /\ tab # "e" THEN GenFrom(Mix(x, 5)) ELSE <<>>
      \* unique columns rarely take part in mass updates
      free == SelectSeq(Cols[tab], LAMBDA c : pk \/ c \notin {"id", "c", "x", "y", "p", "w_q"} \/ Chance(x, 6, 8))
      some == SubNames(Mix(x, 7), free, 65)
      keyed == IF pk THEN some \o SelectSeq(PKey[tab], LAMBDA c : \A i \in 1..Len(some) : some[i] # c) ELSE some
      cols == Shuffle(Mix(x, 8), IF keyed = <<>> THEN free ELSE keyed)
      \* a key field keeps a plain form: it says which row is meant
      rec0 == GenRec(Mix(x, 9), tab, cols, dens, ~slice)
      rec1 == [rec0 EXCEPT !.fields = [ i \in 1..Len(rec0.fields) |->
                 LET f == rec0.fields[i] IN
                 IF pk /\ \E k \in 1..Len(PKey[tab]) : PKey[tab][k] = f.c
                 THEN [f EXCEPT !.def = FALSE, !.opts = Pick(x, 60 + i, << <<>>, <<Opt("ro", FALSE, {"i", "u"})>>, <<Opt("-u", FALSE, {"u"})>> >>)] ELSE f ]]
      force == IF Chance(x, 10, dens \div 2) THEN (IF Chance(x, 11, 25) THEN <<"*">> ELSE Shuffle(Mix(x, 12), SubNames(Mix(x, 13), cols, 40))) ELSE <<>>
      dl == SelectSeq(cols, LAMBDA c : c \in Defaulted[tab] /\ (~pk \/ c # "id"))
      deflt == IF dl # <<>> /\ Chance(x, 14, dens) THEN dl ELSE <<>>
      d0 == [ op |-> "update", tab |-> tab, alias |-> Spell(Mix(x, 16)), uq |-> Chance(x, 17, 30), by |-> by, from |-> from,
              where |-> IF by = "where" THEN GenWhere(Mix(x, 18), tab, from) ELSE <<>>,
              filt |-> IF by = "filter" THEN GenFilt(Mix(x, 19), tab) ELSE NoFilt,
              rec |-> rec1, ptr |-> Chance(x, 20, 50), slice |-> slice, dir |-> FALSE,
              force |-> force, deflt |-> deflt, out |-> GenOut(Mix(x, 21), tab, rec1, force, dens) ]
      plain == [rec1 EXCEPT !.fields = [ i \in 1..Len(rec1.fields) |-> [rec1.fields[i] EXCEPT !.opts = <<>>] ],
                            !.groups = [ i \in 1..Len(rec1.groups) |-> [rec1.groups[i] EXCEPT !.opts = <<>>] ]]
  IN IF Writes(d0, "u") = <<>> THEN [d0 EXCEPT !.rec = plain] ELSE d0

(* -------------------------------------------------------------- inserts -- *)
UniqueCols(tab, n) == CASE n = "pk" -> PKey[tab] [] n = "c" -> <<"c">> [] n = "q" -> <<"w_q">> [] n = "p" -> <<>>
GenConflict(x, tab) ==
  LET k == Upto(x, 1, 99)
      tg == Pick(x, 2, UniqueKeys[tab])
      how == IF tg = "p" THEN "index" ELSE IF tg = "q" THEN Pick(x, 3, <<"column", "index">>) ELSE Pick(x, 3, <<"column", "column", "index", "constraint">>)
      \* an identity column that is always generated cannot be assigned on conflict
      list == IF tab = "g" THEN <<"a">> ELSE Shuffle(Mix(x, 4), SubNames(Mix(x, 5), Cols[tab], 45))
      cols == Shuffle(Mix(x, 6), UniqueCols(tab, tg))
  IN IF k < 35 THEN [ k |-> "none" ]
     ELSE IF k < 50 THEN [ k |-> "ignore", key |-> "", how |-> "", cols |-> <<>> ]
     ELSE IF k < 65 THEN [ k |-> "ignore", key |-> tg, how |-> how, cols |-> cols ]
     ELSE [ k |-> "update", key |-> tg, how |-> how, cols |-> cols, list |-> IF list = <<>> \/ (tab # "g" /\ Chance(x, 7, 30)) THEN <<"*">> ELSE list ]
GenInsert(x, dens) ==
  LET tab == Pick(x, 1, <<"t", "t", "t", "ck", "e", "e", "g">>)
      slice == Chance(x, 2, 50)
      must == SelectSeq(Cols[tab], LAMBDA c : c \in NotNull[tab] \ HasDefault[tab])
      some == SelectSeq(Cols[tab], LAMBDA c : Chance(x, 300 + (CHOOSE i \in 1..Len(Cols[tab]) : Cols[tab][i] = c), 70)
                                              \/ ((\E i \in 1..Len(must) : must[i] = c) /\ Chance(x, 4, 95)))
      cols == Shuffle(Mix(x, 5), IF some = <<>> THEN Cols[tab] ELSE some)
      rec == GenRec(Mix(x, 6), tab, cols, dens, TRUE)
      force == IF Chance(x, 7, dens \div 2) THEN (IF Chance(x, 8, 25) THEN <<"*">> ELSE Shuffle(Mix(x, 9), SubNames(Mix(x, 10), cols, 40))) ELSE <<>>
      dl == SelectSeq(cols, LAMBDA c : c \in Defaulted[tab])
      deflt == IF tab # "g" /\ Chance(x, 11, 4) THEN <<"*">> ELSE IF dl # <<>> /\ Chance(x, 11, 30) THEN Shuffle(Mix(x, 12), dl) ELSE <<>>
      conf == GenConflict(Mix(x, 13), tab)
      out0 == GenOut(Mix(x, 14), tab, rec, force, dens)
      out == IF slice /\ out0.k = "ret" /\ conf.k = "ignore" THEN NoOut ELSE out0   \* see known findings
      d0 == [ op |-> "insert", tab |-> tab, alias |-> Spell(Mix(x, 15)), rec |-> rec, ptr |-> Chance(x, 16, 50), slice |-> slice,
              force |-> force, deflt |-> deflt, conf |-> conf, out |-> out,
              over |-> IF tab = "g" THEN Pick(x, 17, IF HasField(rec, "id") THEN <<"user", "system">> ELSE <<"", "user", "system">>) ELSE IF Chance(x, 17, 4) THEN Pick(x, 18, <<"user", "system">>) ELSE "" ]
      plain == [rec EXCEPT !.fields = [ i \in 1..Len(rec.fields) |-> [rec.fields[i] EXCEPT !.opts = <<>>] ],
                           !.groups = [ i \in 1..Len(rec.groups) |-> [rec.groups[i] EXCEPT !.opts = <<>>] ]]
  IN IF Writes(d0, "i") = <<>> THEN [d0 EXCEPT !.rec = plain] ELSE d0

(* reading through a record with options, in key order *)
GenRead(x, dens) ==
  LET tab == Pick(x, 1, <<"t", "ck", "e", "e", "g">>)
      cols == Shuffle(Mix(x, 2), SubNames(Mix(x, 3), Cols[tab], 75))
      rec == GenRec(Mix(x, 4), tab, IF cols = <<>> THEN Cols[tab] ELSE cols, dens, FALSE)
      plain == [rec EXCEPT !.fields = [ i \in 1..Len(rec.fields) |-> [rec.fields[i] EXCEPT !.opts = <<>>] ],
                           !.groups = [ i \in 1..Len(rec.groups) |-> [rec.groups[i] EXCEPT !.opts = <<>>] ]]
  IN [ op |-> "read", tab |-> tab, alias |-> Spell(Mix(x, 5)), rec |-> IF Readable(rec, <<>>) = <<>> THEN plain ELSE rec,
       ptr |-> Chance(x, 6, 50), iter |-> Chance(x, 7, 30), one |-> Chance(x, 8, 15), force |-> <<>> ]
=============================================================================
