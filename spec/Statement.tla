------------------------------ MODULE Statement ------------------------------
(* What every accepted description must give: code that compiles wherever the   *)
(* types it mentions live and whatever settings are in force, and statements    *)
(* the database takes with precisely the arguments passed: C11.                 *)
(* Descriptions of all kinds are decorated with error handlers, contexts and    *)
(* record types from other packages, and put into packages generated under      *)
(* different settings; a step runs one of them and says how many arguments the  *)
(* statement must carry.                                                        *)
EXTENDS WriteGen
CONSTANTS ND, NP, NR, Seed     \* descriptions per package, packages, runs, base number

Settings(p) == LET x == Mix(p * 71 + 5, Seed) IN
  [ ctx |-> p % 3 = 0 \/ Chance(x, 1, 25), qid |-> p % 2 = 0,
    arg |-> << "gosql", "other", "ptr", "own", "namesake", "odd" >>[((p - 1) % 6) + 1],
    \* generated next to the input, or under another name
    out |-> Pick(x, 3, <<"", "%s_gen.go", "zz_%s_sql.go">>) ]

(* eh: none, or how the error handler is attached; ctxf: a context field;
   rec: the package the record types live in (two are both called data, others
   bear names the generated code wants for itself) *)
Deco(x) == [ eh |-> Pick(x, 1, <<"none", "none", "field", "embed", "iface", "info", "infoiface", "infoembed">>),
             ctxf |-> Chance(x, 2, 20),
             rec |-> Pick(x, 3, <<"own", "own", "data", "twin", "gosql", "pgsql", "v", "strconv">>) ]

Desc(i) ==
  LET p == (i - 1) \div ND + 1
      x == Mix((Seed * 1361 + i) % P, i \div 40000 + 3)
      k == i % 8
      d == CASE k \in {0, 1, 2} -> GenSelect(x)
             [] k = 3 -> GenRead(x, 12)
             [] k = 4 -> GenDelete(x, 10)
             [] k \in {5, 6} -> IF Chance(x, 77, 55) THEN GenUpdate(x, 12) ELSE GenInsert(x, 12)
             [] OTHER -> GenInsert(x, 12)
  IN d @@ [ deco |-> Deco(Mix(x, 5)), pack |-> p ]

(* ------------------------------------------------------------ arguments -- *)
FldArgs(f, args) == IF f.go = "in" THEN Len(args[f.slot]) ELSE 1
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
CondArgs(items, args) == LET fs == Fields(items) IN Sum([ j \in 1..Len(fs) |-> FldArgs(fs[j], args) ])
FiltArgs(f) == IF f.empty THEN 0 ELSE 2
IsDef(d, f) == f.def \/ InList(f.c, d.deflt)
Given(d, ab) == SelectSeq(Writes(d, ab), LAMBDA f : ~IsDef(d, f))
InKey(d, f) == \E k \in 1..Len(PKey[d.tab]) : PKey[d.tab][k] = f.c
(* rows: the number of records *)
Count(d, args, rows) ==
  CASE d.op = "select" -> (IF d.wmode = "filter" THEN FiltArgs(d.filt) ELSE CondArgs(d.where, args))
                          + Len(NumFields(d.limit)) + Len(NumFields(d.offset))
    [] d.op = "read" -> 0
    [] d.op = "delete" -> IF d.by = "filter" THEN FiltArgs(d.filt) ELSE CondArgs(d.where, args)
    [] d.op = "update" -> IF d.by = "pk" THEN rows * (Len(PKey[d.tab]) + Len(SelectSeq(Given(d, "u"), LAMBDA f : ~InKey(d, f))))
                          ELSE Len(Given(d, "u")) + (IF d.by = "filter" THEN FiltArgs(d.filt) ELSE CondArgs(d.where, args))
    [] d.op = "insert" -> rows * Len(Given(d, "i"))

(* the database error a statement may rightly meet, whatever the data *)
WArgs(d, x) == CASE d.op \in {"read", "insert"} -> <<>>
                 [] d.op = "select" -> ArgsOf(SelFields(Spelled(d)), x)
                 [] d.by = "filter" -> [ Min |-> <<Upto(x, 601, 4)>>, Max |-> <<3 + Upto(x, 602, 4)>> ]
                 [] OTHER -> ArgsOf(Fields(d.where), x)
Recs(d, x, n) == [ k \in 1..n |-> [ c \in { d.rec.fields[q].c : q \in 1..Len(d.rec.fields) } |->
                      LET q == CHOOSE q \in 1..Len(d.rec.fields) : d.rec.fields[q].c = c IN FieldGiven(x, q * 60 + k * 13, d.rec.fields[q]) ]]

(* --------------------------------------------------------------- probes -- *)
(* Fixed descriptions for what the tool is known to get wrong; random ones avoid it. *)
PF(c) == [ c |-> c, ty |-> TypeOf[c], go |-> "p", opts |-> <<>>, def |-> FALSE, co |-> "-", cov |-> <<>>, grp |-> 0 ]
PRec == [ tab |-> "t", groups |-> <<>>, fields |-> << PF("id"), PF("a") >> ]
PDeco == [ deco |-> [ eh |-> "none", ctxf |-> FALSE, rec |-> "own" ], pack |-> 1 ]
PIns(name) == [ op |-> "insert", probe |-> name, tab |-> "t", alias |-> "alias", rec |-> PRec, ptr |-> TRUE, slice |-> TRUE, force |-> <<>>, deflt |-> <<>>,
                conf |-> [ k |-> "none", key |-> "", how |-> "", cols |-> <<>> ], out |-> NoOut, over |-> "" ] @@ PDeco
PUpd(name) == [ op |-> "update", probe |-> name, tab |-> "t", alias |-> "alias", uq |-> FALSE, by |-> "pk", from |-> <<>>, where |-> <<>>,
                filt |-> NoFilt, rec |-> PRec, ptr |-> TRUE, slice |-> TRUE, dir |-> FALSE, force |-> <<>>, deflt |-> <<>>, out |-> NoOut ] @@ PDeco
PDel(name, neg) == [ op |-> "delete", probe |-> name, tab |-> "t", alias |-> "alias", uq |-> FALSE, by |-> "where", from |-> <<>>,
                     where |-> << [ k |-> "in", l |-> Col("t", "a"), neg |-> neg, r |-> Fld("F1", "int", "in"), bool |-> "" ] >>,
                     filt |-> NoFilt, rec |-> PRec, dir |-> TRUE, out |-> NoOut, ptr |-> TRUE, slice |-> FALSE, force |-> <<>>, deflt |-> <<>> ] @@ PDeco
NoList == [ F1 |-> <<>> ]
(* rep: the record is given so many times over *)
Probes == << [ d |-> PIns("slice insert of no records"), args |-> <<>>, recs |-> <<>>, rep |-> 1, want |-> 0 ],
             [ d |-> PUpd("slice update of no records"), args |-> <<>>, recs |-> <<>>, rep |-> 1, want |-> 0 ],
             [ d |-> PDel("isin with an empty list", FALSE), args |-> NoList, recs |-> <<>>, rep |-> 1, want |-> 0 ],
             [ d |-> PDel("notin with an empty list", TRUE), args |-> NoList, recs |-> <<>>, rep |-> 1, want |-> 0 ],
             [ d |-> PIns("slice insert of more values than a statement can carry"), args |-> <<>>, recs |-> << [id |-> <<1>>, a |-> <<1>>] >>,
               rep |-> 33000, want |-> 66000 ] >>

VARIABLES i, run, last
vars == <<i, run, last>>
Init == i \in 1..ND * NP + Len(Probes) /\ run = 0 /\ last = <<>>
Probe == /\ i > ND * NP /\ run = 0
         /\ LET p == Probes[i - ND * NP] IN
              /\ last' = [ kind |-> p.d.op, n |-> p.rep, want |-> p.want ]
              /\ PrintT("TRACE " \o ToJson([ d |-> i, db |-> WriteDB(7), args |-> p.args, recs |-> p.recs, rep |-> p.rep, want |-> [ args |-> p.want ] ]))
         /\ run' = NR /\ UNCHANGED i
Exec == /\ i <= ND * NP /\ run < NR
        /\ LET d == Desc(i)
               x == Mix(Mix(i, 900 + run), Seed)
               args == WArgs(d, x)
               n == IF d.op \in {"insert", "update"} THEN (IF d.slice THEN Pick(x, 700, <<1, 2, 3>>) ELSE 1) ELSE 0
               recs == IF n = 0 THEN <<>> ELSE Recs(d, x, n)
               want == [ args |-> Count(d, args, n) ]
           IN /\ last' = [ kind |-> d.op, n |-> n, want |-> want.args ]
              /\ PrintT("TRACE " \o ToJson([ d |-> i, db |-> WriteDB(Mix(x, 31)), args |-> args, recs |-> recs, want |-> want ]))
        /\ run' = run + 1 /\ UNCHANGED i
Spec == Init /\ [][Exec \/ Probe]_vars

(* more records never mean fewer arguments, and a read carries none of its own *)
Sane == last # <<>> => /\ last.want >= 0
                       /\ last.kind = "read" => last.want = 0
                       /\ last.kind \in {"insert", "update"} => last.n >= 1
ASSUME \A p \in 1..NP : PrintT("SET " \o ToJson([ p |-> p, s |-> Settings(p) ]))
ASSUME \A q \in 1..Len(Probes) : PrintT("DESC " \o ToJson([ i |-> ND * NP + q, d |-> Probes[q].d ]))
ASSUME \A q \in 1..ND * NP : PrintT("DESC " \o ToJson([ i |-> q, d |-> Desc(q) ]))
=============================================================================
