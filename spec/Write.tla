-------------------------------- MODULE Write -------------------------------
(* Behaviours that run write descriptions over database states: C08 (updates,  *)
(* deletes), C09 (inserts), C10 (all of them, and reads, with many options).   *)
EXTENDS WriteGen
CONSTANTS ND, NR, Seed, Family

Desc(i) ==
  LET x == Mix((Seed * 977 + i) % P, i \div 40000 + 1) IN
  CASE Family = "change" -> IF i % 3 = 0 THEN GenDelete(x, 8) ELSE GenUpdate(x, 12)
    [] Family = "insert" -> GenInsert(x, 12)
    [] Family = "options" -> CASE i % 4 = 0 -> GenRead(x, 60) [] i % 4 = 1 -> GenUpdate(x, 45) [] i % 4 = 2 -> GenInsert(x, 45)
                               [] OTHER -> IF i % 8 = 3 THEN GenDelete(x, 50) ELSE GenRead(x, 60)

(* ------------------------------------------------------ between Go and SQL -- *)
(* An empty value in a nullable column is NULL, unless the field can say NULL
   itself; NULL read into a field that cannot say NULL is the empty value. *)
Stored(tab, f, val) == IF f.go \in {"v", "t"} /\ f.c \notin NotNull[tab] /\ val = ZeroOf(f.ty) THEN Nul ELSE val
Shown(f, val) == IF ~IsNul(val) THEN val
                 ELSE IF f.co = "val" THEN f.cov
                 ELSE IF f.co = "zero" \/ f.go \in {"v", "t", "j"} THEN ZeroOf(f.ty) ELSE Nul
(* a field never touched *)
Untouched(f) == IF f.go \in {"p", "n", "jp"} THEN Nul ELSE ZeroOf(f.ty)
(* a record read from a row: fs the fields read into; a nested pointer struct without
   any of them stays nil and shows nothing *)
Among(f, fs) == \E i \in 1..Len(fs) : fs[i].c = f.c
Absent(rec, f, fs) == \E g \in Chain(rec, f.grp) : rec.groups[g].ptr /\ \A i \in 1..Len(fs) : g \notin Chain(rec, fs[i].grp)
View(rec, fs, row) == [ c \in { rec.fields[i].c : i \in {i \in 1..Len(rec.fields) : ~Absent(rec, rec.fields[i], fs)} } |->
                          LET f == FieldOf(rec, c) IN IF Among(f, fs) THEN Shown(f, row[c]) ELSE Untouched(f) ]
(* a given record after the named columns of a row were read back into it *)
Overlay(rec, fs, row, given) == [ c \in { rec.fields[i].c : i \in 1..Len(rec.fields) } |->
                                    LET f == FieldOf(rec, c) IN IF Among(f, fs) THEN Shown(f, row[c]) ELSE given[c] ]
Returned(d) == CASE d.out.k = "ret" -> (IF d.out.list = <<"*">> THEN Readable(d.rec, d.force)
                                        ELSE SelectSeq(d.rec.fields, LAMBDA f : InList(f.c, d.out.list)))
                 [] d.out.k = "res" -> Readable(d.out.rec, d.force)
                 [] OTHER -> <<>>

Put(db, tab, rows) == [db EXCEPT ![tab] = rows]
Keep(s, T(_)) == SelectSeq(s, T)

(* What the caller sees, for the rows handed back by the statement (in order when
   ord), the number of affected rows, and the records given (inserts, updates).
   one: which rows may be the one shown; "all": exactly these rows. *)
Answer(d, rows, given) ==
  LET fs == Returned(d)  n == Len(rows) IN
  CASE d.out.k = "none" -> [ k |-> "none" ]
    [] d.out.k = "aff" -> [ k |-> "aff", n |-> n ]
    [] d.out.k = "res" -> [ k |-> IF d.out.shape = "one" THEN "one" ELSE "all", rows |-> [ i \in 1..n |-> View(d.out.rec, fs, rows[i]) ] ]
    [] d.out.k = "ret" /\ d.op = "delete" -> [ k |-> IF d.slice THEN "all" ELSE "one", rows |-> [ i \in 1..n |-> View(d.rec, fs, rows[i]) ] ]
    [] d.out.k = "ret" /\ ~d.slice -> [ k |-> "one", rows |-> [ i \in 1..n |-> Overlay(d.rec, fs, rows[i], given[1]) ] ]
    [] d.out.k = "ret" /\ d.op = "insert" -> [ k |-> "given", rows |-> [ i \in 1..n |-> Overlay(d.rec, fs, rows[i], given[i]) ] ]
    \* the rows of a slice update come back in no particular order
    [] OTHER -> [ k |-> "some", rows |-> [ i \in 1..n |-> [ c \in { fs[j].c : j \in 1..Len(fs) } |-> Shown(FieldOf(d.rec, c), rows[i][c]) ] ] ]
(* one row wanted, none there: an error, though the statement took effect *)
Errs(d, a) == IF a.k = "one" /\ a.rows = <<>> THEN {"norows"} ELSE {""}
Done(d, db, rows, given) == LET a == Answer(d, rows, given) IN [ err |-> Errs(d, a), db |-> db, ans |-> a ]
Failed(db, errs) == [ err |-> errs, db |-> db, ans |-> [ k |-> "none" ] ]

(* -------------------------------------------------------- update, delete -- *)
(* the rows of the target selected by where and from: those with a partner *)
FromEnvs(db, from) ==
  IF from = <<>> THEN << <<>> >>
  ELSE FoldLeft(LAMBDA acc, j : JoinStep(db, acc, j), [ tabs |-> {"u"}, rows |-> [ i \in 1..Len(db.u) |-> [ q \in {"u"} |-> db.u[i] ] ] ], Tail(from)).rows
HitBy(db, d, args, r) ==
  CASE d.by = "all" -> TRUE
    [] d.by = "filter" -> d.filt.empty \/ (~IsNul(r[d.filt.c]) /\ r[d.filt.c][1] >= args.Min[1] /\ r[d.filt.c][1] < args.Max[1])
    [] d.by = "where" -> LET es == FromEnvs(db, d.from)  w == Meaning(d.where) IN
                         \E i \in 1..Len(es) : Cond([ q \in DOMAIN es[i] \cup {d.tab} |-> IF q = d.tab THEN r ELSE es[i][q] ], args, w) = "T"
SamePK(d, r, rec) == \A i \in 1..Len(PKey[d.tab]) : LET c == PKey[d.tab][i] IN ~IsNul(rec[c]) /\ rec[c] = r[c]

RunDelete(db, d, args) ==
  LET hit == Keep(db[d.tab], LAMBDA r : HitBy(db, d, args, r))
      rest == Keep(db[d.tab], LAMBDA r : ~HitBy(db, d, args, r))
  IN Done(d, Put(db, d.tab, rest), hit, <<>>)

IsDefault(d, f) == f.def \/ InList(f.c, d.deflt)
SetCols(d, fs, row, rec, k) == FoldLeft(LAMBDA r, f : [r EXCEPT ![f.c] = IF IsDefault(d, f) THEN Default(d.tab, f.c, k) ELSE Stored(d.tab, f, rec[f.c])], row, fs)
RunUpdate(db, d, args, recs) ==
  LET rows == db[d.tab]  n == Len(rows)  fs == Writes(d, "u")
      \* the record that applies to row i, 0 for none (keys given are distinct)
      which == [ i \in 1..n |-> IF d.by = "pk" THEN (IF \E k \in 1..Len(recs) : SamePK(d, rows[i], recs[k]) THEN CHOOSE k \in 1..Len(recs) : SamePK(d, rows[i], recs[k]) ELSE 0)
                                ELSE IF HitBy(db, d, args, rows[i]) THEN 1 ELSE 0 ]
      upto(i) == Cardinality({ q \in 1..i : which[q] > 0 })
      new == [ i \in 1..n |-> IF which[i] = 0 THEN rows[i] ELSE SetCols(d, fs, rows[i], recs[which[i]], upto(i)) ]
      nulls == \E i \in 1..n : which[i] > 0 /\ \E c \in NotNull[d.tab] : IsNul(new[i][c])
      \* a key taken over from a row that gives it up may clash on the way or not
      passing == \E i, j \in 1..n : i # j /\ which[i] > 0 /\ which[j] > 0 /\ \E q \in 1..Len(UniqueKeys[d.tab]) : Clash(d.tab, UniqueKeys[d.tab][q], new[i], rows[j])
      clash == ~Distinct(d.tab, new)
      hits == Keep([ i \in 1..n |-> [ i |-> i, r |-> new[i] ] ], LAMBDA h : which[h.i] > 0)
      ok == Done(d, Put(db, d.tab, new), [ h \in 1..Len(hits) |-> hits[h].r ], recs)
  IN IF nulls /\ (clash \/ passing) /\ d.slice THEN Failed(db, {"unique", "notnull"})
     ELSE IF nulls THEN Failed(db, {"notnull"})
     ELSE IF clash THEN Failed(db, {"unique"})
     ELSE IF passing THEN [ok EXCEPT !.err = @ \cup {"unique"}]
     ELSE ok

(* --------------------------------------------------------------- insert -- *)
Candidate(d, fs, rec, k) == [ c \in DOMAIN NullRow(d.tab) |->
  IF (\E i \in 1..Len(fs) : fs[i].c = c) /\ ~(d.over = "user" /\ d.tab = "g" /\ c = "id")
  THEN LET f == FieldOf(d.rec, c) IN IF IsDefault(d, f) THEN Default(d.tab, c, k) ELSE Stored(d.tab, f, rec[c])
  ELSE Default(d.tab, c, k) ]
(* one row: acc = [err, rows, touched (set of positions), out (sequence of rows)] *)
InsertOne(d, fs, acc, rec, k) ==
  LET cand == Candidate(d, fs, rec, k)
      all == { UniqueKeys[d.tab][i] : i \in 1..Len(UniqueKeys[d.tab]) }
      arb == CASE d.conf.k = "none" -> {} [] d.conf.key = "" -> all [] OTHER -> {d.conf.key}
      met == { i \in 1..Len(acc.rows) : \E q \in arb : Clash(d.tab, q, cand, acc.rows[i]) }
  IN IF acc.err # "" THEN acc
     ELSE IF \E c \in NotNull[d.tab] : IsNul(cand[c]) THEN [acc EXCEPT !.err = "notnull"]
     ELSE IF met # {} THEN
       IF d.conf.k = "ignore" THEN acc
       ELSE LET i == CHOOSE i \in met : TRUE
                cols == IF d.conf.list = <<"*">> THEN Names(fs) ELSE d.conf.list
                new == FoldLeft(LAMBDA r, c : [r EXCEPT ![c] = cand[c]], acc.rows[i], cols)
                rows == [acc.rows EXCEPT ![i] = new] IN
            IF i \in acc.touched THEN [acc EXCEPT !.err = "cardinality"]
            ELSE IF ~Distinct(d.tab, rows) THEN [acc EXCEPT !.err = "unique"]
            ELSE [ err |-> "", rows |-> rows, touched |-> acc.touched \cup {i}, out |-> Append(acc.out, new) ]
     ELSE LET rows == Append(acc.rows, cand) IN
          IF ~Distinct(d.tab, rows) THEN [acc EXCEPT !.err = "unique"]
          ELSE [ err |-> "", rows |-> rows, touched |-> acc.touched \cup {Len(rows)}, out |-> Append(acc.out, cand) ]
RunInsert(db, d, recs) ==
  LET fs == Writes(d, "i")
      byhand == d.tab = "g" /\ d.over = "" /\ \E i \in 1..Len(fs) : fs[i].c = "id" /\ ~IsDefault(d, fs[i])
      \* the identity column of g cannot be assigned on conflict either
      r == FoldLeft(LAMBDA acc, k : InsertOne(d, fs, acc, recs[k], k), [ err |-> "", rows |-> db[d.tab], touched |-> {}, out |-> <<>> ], [ k \in 1..Len(recs) |-> k ])
  IN IF byhand THEN Failed(db, {"generated"})
     ELSE IF r.err # "" THEN Failed(db, {r.err})
     ELSE Done(d, Put(db, d.tab, r.rows), r.out, recs)

RunRead(db, d) == LET fs == Readable(d.rec, d.force)
                      rows == [ i \in 1..Len(db[d.tab]) |-> View(d.rec, fs, db[d.tab][i]) ]
                  IN [ err |-> IF d.one /\ rows = <<>> THEN {"norows"} ELSE {""}, db |-> db,
                       ans |-> [ k |-> IF d.one THEN "one" ELSE "all", rows |-> IF d.one /\ rows # <<>> THEN <<rows[1]>> ELSE rows ] ]

(* --------------------------------------------------------------- probes -- *)
(* Fixed descriptions for what the tool is known to get wrong; random ones avoid it. *)
PF(c, opts) == [ c |-> c, ty |-> TypeOf[c], go |-> "p", opts |-> opts, def |-> FALSE, co |-> "-", cov |-> <<>>, grp |-> 0 ]
PRec(tab, fs) == [ tab |-> tab, groups |-> <<>>, fields |-> fs ]
PUpdate(name, rec, slice, out) ==
  [ op |-> "update", probe |-> name, tab |-> "t", alias |-> "alias", uq |-> FALSE, by |-> "pk", from |-> <<>>, where |-> <<>>, filt |-> NoFilt,
    rec |-> rec, ptr |-> TRUE, slice |-> slice, dir |-> FALSE, force |-> <<>>, deflt |-> <<>>, out |-> out ]
PInsert(name, rec, conf, out) ==
  [ op |-> "insert", probe |-> name, tab |-> "t", alias |-> "alias", rec |-> rec, ptr |-> TRUE, slice |-> TRUE, force |-> <<>>, deflt |-> <<>>,
    conf |-> conf, out |-> out, over |-> "" ]
PDB == [ WriteDB(7) EXCEPT !.t = << TRow(1, <<2>>, 7, Nul, <<97>>, <<1>>), TRow(2, <<3>>, 7, Nul, <<98>>, <<1>>) >> ]
RetAll == [ k |-> "ret", list |-> <<"*">> ]
PIdA == PRec("t", << PF("id", <<>>), PF("a", <<>>) >>)
Probes == CASE
     Family = "change" ->
       << [ d |-> PUpdate("slice update with Return, a record without a row", PIdA, TRUE, RetAll),
            recs |-> << [id |-> <<6>>, a |-> <<5>>], [id |-> <<1>>, a |-> <<7>>] >>,
            db |-> [PDB EXCEPT !.t = << [PDB.t[1] EXCEPT !.a = <<7>>], PDB.t[2] >>],
            rows |-> << [id |-> <<6>>, a |-> <<5>>], [id |-> <<1>>, a |-> <<7>>] >> ] >>
  [] Family = "insert" ->
       << [ d |-> PInsert("slice insert with Ignore and Return, a record skipped", PRec("t", << PF("id", <<>>), PF("c", <<>>) >>),
                          [ k |-> "ignore", key |-> "", how |-> "", cols |-> <<>> ], RetAll),
            recs |-> << [id |-> <<1>>, c |-> <<120>>], [id |-> <<9>>, c |-> <<121>>] >>,
            db |-> [PDB EXCEPT !.t = Append(@, [NullRow("t") EXCEPT !.id = <<9>>, !.b = <<7>>, !.c = <<121>>])],
            rows |-> << [id |-> <<1>>, c |-> <<120>>], [id |-> <<9>>, c |-> <<121>>] >> ] >>
  [] Family = "options" ->
       << [ d |-> PUpdate("update with the add option", PRec("t", << PF("id", <<>>), PF("a", <<Opt("add", TRUE, {})>>) >>), FALSE, NoOut),
            recs |-> << [id |-> <<1>>, a |-> <<5>>] >>,
            db |-> [PDB EXCEPT !.t = << [PDB.t[1] EXCEPT !.a = <<7>>], PDB.t[2] >>],
            rows |-> <<>> ] >>
ProbeWant(p) == [ err |-> {""}, db |-> p.db, ans |-> IF p.d.out.k = "none" THEN [ k |-> "none" ] ELSE [ k |-> "given", rows |-> p.rows ] ]

(* ------------------------------------------------------------ behaviours -- *)
VARIABLES i, db, run, last
vars == <<i, db, run, last>>

Given(d, x, n) == [ k \in 1..n |-> [ c \in { d.rec.fields[q].c : q \in 1..Len(d.rec.fields) } |->
                      LET q == CHOOSE q \in 1..Len(d.rec.fields) : d.rec.fields[q].c = c  f == FieldOf(d.rec, c) IN
                      \* keys of a slice update are distinct; inserts choose keys near the stored ones
                      IF d.op = "update" /\ d.by = "pk" /\ c = "id" THEN (IF f.go \in {"p", "n"} /\ Chance(x, 500 + k, 4) THEN Nul
                                                                          ELSE IF d.out.k = "ret" THEN <<1 + ((Upto(x, 502, 1) + k) % 7)>> ELSE <<1 + ((Upto(x, 501, 6) + k) % 7)>>)
                      ELSE IF d.op = "update" /\ d.by = "pk" /\ c = "x" THEN <<1 + ((k + Upto(x, 503, 1)) \div 2)>>
                      ELSE IF d.op = "update" /\ d.by = "pk" /\ c = "y" THEN <<1 + ((k + Upto(x, 503, 1)) % 2)>>
                      ELSE IF d.op = "insert" /\ c \in {"id", "x", "y"} /\ ~Chance(x, 520 + k, 10) THEN <<Upto(x, 510 + k * 7 + q, 5)>>
                      ELSE FieldGiven(x, q * 60 + k * 13, f) ]]
WArgs(d, x) == IF d.op \in {"read", "insert"} THEN <<>>
               ELSE IF d.by = "filter" THEN [ Min |-> <<Upto(x, 601, 4)>>, Max |-> <<3 + Upto(x, 602, 4)>> ]
               ELSE ArgsOf(Fields(d.where), x)

Expect(d, data, args, recs) == CASE d.op = "delete" -> RunDelete(data, d, args)
                                 [] d.op = "update" -> RunUpdate(data, d, args, recs)
                                 [] d.op = "insert" -> RunInsert(data, d, recs)
                                 [] d.op = "read" -> RunRead(data, d)

Init == i \in 1..ND + Len(Probes) /\ run = 0 /\ db = WriteDB(Mix(i, 1)) /\ last = <<>>
Exec == /\ run < NR
        /\ IF i > ND THEN
             /\ run = 0
             /\ LET p == Probes[i - ND] IN
                  /\ db' = PDB
                  /\ last' = [ tab |-> p.d.tab, op |-> p.d.op, want |-> ProbeWant(p) ]
                  /\ PrintT("TRACE " \o ToJson([ d |-> i, db |-> PDB, args |-> <<>>, recs |-> p.recs, want |-> ProbeWant(p) ]))
           ELSE
           LET d == Desc(i)
               x == Mix(Mix(i, 900 + run), Seed)
               args == WArgs(d, x)
               recs == IF d.op \in {"insert", "update"} THEN Given(d, x, IF d.slice THEN Pick(x, 700, <<1, 2, 2, 3>>) ELSE 1) ELSE <<>>
               data == WriteDB(Mix(x, 31))
               want == Expect(d, data, args, recs)
           IN /\ db' = data
              /\ last' = [ tab |-> d.tab, op |-> d.op, want |-> want ]
              /\ PrintT("TRACE " \o ToJson([ d |-> i, db |-> data, args |-> args, recs |-> recs, want |-> want ]))
        /\ run' = run + 1 /\ UNCHANGED i
Spec == Init /\ [][Exec]_vars

(* The outcome of any write respects the declared keys and touches one table. *)
Consistent == \A q \in DOMAIN db : Distinct(q, db[q])
Lawful == last # <<>> => /\ Distinct(last.tab, last.want.db[last.tab])
                         /\ \A q \in DOMAIN db : q # last.tab => last.want.db[q] = db[q]
                         /\ last.op = "read" => last.want.db = db
ASSUME \A q \in 1..Len(Probes) : PrintT("DESC " \o ToJson([ i |-> ND + q, d |-> Probes[q].d ]))
ASSUME \A q \in 1..ND : PrintT("DESC " \o ToJson([ i |-> q, d |-> Desc(q) ]))
=============================================================================
