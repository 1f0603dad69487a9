------------------------------- MODULE Config --------------------------------
(* How a run of the command comes by its settings (C16): flags first, then the  *)
(* configuration file that applies, then the documented defaults, each setting  *)
(* for itself; and what the settings in force make of the files that are        *)
(* generated.  An invalid setting stops the run before anything is written.     *)
(*                                                                              *)
(* The tree: a project with packages at ".", "pa", "pa/sub" and "pb", each with *)
(* the files fa.go and fb.go; a directory above it and one elsewhere.           *)
EXTENDS RelGen, Json
CONSTANTS N, Seed

Settings == {"wd", "r", "f", "rx", "o", "db", "qid", "tag", "base", "sep", "ctx", "arg", "name", "conv"}
FileOnly == {"name", "conv"}
NameSeq == <<"wd", "r", "f", "rx", "o", "db", "qid", "tag", "base", "sep", "ctx", "arg", "name", "conv">>
Num2(s) == CHOOSE q \in 1..Len(NameSeq) : NameSeq[q] = s
Unset == <<>>                       \* a setting that is not given; otherwise <<value>>
Bools3 == << <<"true">>, <<"false">> >>
Good == [ wd |-> << <<"pa">>, <<"pb">>, <<".">> >>, r |-> Bools3,
          f |-> << <<"pa/fa.go">>, <<"pa/fa.go", "pb/fb.go">>, <<"pb/fa.go">>, <<"pa/sub/fb.go">>, <<"fb.go", "pa/fb.go">> >>,
          rx |-> << <<"fa[.]go$">>, <<"/sub/">>, <<"/p[b]/">>, <<"f[b][.]go$">> >>,
          o |-> << <<"%s_x.go">>, <<"gen_%s.go">>, <<"out.go">> >>, db |-> << <<"db1">>, <<"db2">> >>,
          qid |-> Bools3, tag |-> << <<"json">>, <<"key">>, <<"">>, <<"_t1">> >>, base |-> Bools3, sep |-> << <<".">>, <<"_">>, <<"">>, <<"-">>, <<"/">> >>,
          ctx |-> Bools3, arg |-> << <<"gosql">>, <<"ptr">>, <<"ptrval">>, <<"other">>, <<"self">>, <<"emb">>, <<"twin">> >>, name |-> << <<"Run">>, <<"exec2">> >>, conv |-> << <<"num">> >> ]
\* what must be refused; for flags and for the file
BadFlag == [ wd |-> << <<"nosuch">> >>, r |-> << <<"maybe">> >>, f |-> <<>>, rx |-> << <<"(">> >>, o |-> << <<"%d.go">>, <<"%s_%s.go">>, <<"%">>, <<"100%.go">> >>,
             db |-> << <<"nodb">>, <<"">> >>, qid |-> << <<"2">> >>, tag |-> << <<"9x">>, <<"a-b">>, <<" ">> >>, base |-> << <<"no">> >>, sep |-> << <<"__">>, <<"ab">> >>,
             ctx |-> << <<"x">> >>, arg |-> << <<"missing">>, <<"notconn">>, <<"nodots">>, <<"nopkg">>, <<"valptr">>, <<"ptriface">>, <<"func">>, <<"near">> >>, name |-> <<>>, conv |-> <<>> ]
BadFile == [ BadFlag EXCEPT !.r = << <<"text">> >>, !.qid = << <<"text">> >>, !.base = << <<"number">> >>, !.ctx = << <<"text">> >>,
             !.name = << <<"1x">>, <<"_">>, <<"for">>, <<"">>, <<"a.b">>, <<"number">> >>, !.conv = << <<"nodot">> >>, !.sep = << <<"__">>, <<"number">> >>,
             !.f = << <<"text">> >>, !.rx = << <<"(">>, <<"text">> >> ]
Defaults == [ wd |-> <<"cwd">>, r |-> <<"false">>, f |-> Unset, rx |-> Unset, o |-> <<"%s_gosql.go">>, db |-> Unset, qid |-> <<"false">>, tag |-> <<"json">>,
             base |-> <<"false">>, sep |-> <<".">>, ctx |-> <<"false">>, arg |-> <<"gosql">>, name |-> <<"Exec">>, conv |-> Unset ]

(* ------------------------------------------------------------ situations -- *)
(* where: how the file is found or not; decoy: another file that must not count *)
Places == <<"explicit", "explicit", "root", "root", "rootjson", "none", "below", "above", "nogit", "missing", "broken">>
Counts(at) == at \in {"explicit", "root", "rootjson", "broken", "missing"}
Situation(k) ==
  LET x == Mix(k % P, Seed + 3)
      at == Pick(x, 1, Places)
      bad == IF Chance(x, 2, 30) THEN Pick(x, 3, NameSeq) ELSE ""
      badIn == IF Chance(x, 4, 50) THEN "flag" ELSE "file"
      fl == [ s \in Settings |-> IF s \in FileOnly THEN Unset
                ELSE IF s = bad THEN (IF badIn = "flag" /\ BadFlag[s] # <<>> THEN Pick(x, 5, BadFlag[s]) ELSE Unset)
                ELSE IF Chance(x, 100 + Num2(s), IF s \in {"f", "rx"} THEN 15 ELSE 40) THEN Pick(x, 200 + Num2(s), Good[s]) ELSE Unset ]
      fi == [ s \in Settings |-> IF s = bad THEN (IF badIn = "file" /\ BadFile[s] # <<>> THEN Pick(x, 6, BadFile[s]) ELSE Unset)
                ELSE IF Chance(x, 300 + Num2(s), IF s \in {"f", "rx"} THEN 15 ELSE IF s = "db" THEN 80 ELSE 50) THEN Pick(x, 400 + Num2(s), Good[s]) ELSE Unset ]
      \* a run needs a database from somewhere, or it is one that must be refused
      fl2 == IF fl.db = Unset /\ bad # "db" /\ (fi.db = Unset \/ ~Counts(at)) /\ ~Chance(x, 7, 15) THEN [ fl EXCEPT !.db = Pick(x, 8, Good.db) ] ELSE fl
      cwds == IF fl2.wd # Unset THEN <<".", "pa", "elsewhere">> ELSE <<".", "pa", "pa">>
  IN [ flags |-> fl2, file |-> fi, at |-> at, cwd |-> Pick(x, 9, cwds),
       \* flags that are given before with another value: the last one counts
       before |-> [ s \in Settings |-> IF fl2[s] # Unset /\ s \notin {"f", "rx"} /\ Chance(x, 500 + Num2(s), 12) THEN Pick(x, 600 + Num2(s), Good[s]) ELSE Unset ],
       nulls |-> Chance(x, 10, 40),            \* settings the file does not give are there as null
       dirs |-> Chance(x, 12, 30),             \* a directory at the root has the name of a file of settings
       decoy |-> at = "explicit" /\ Chance(x, 11, 60) ]   \* with an explicit file the one at the root does not count

(* ------------------------------------------------------------------- run -- *)
VARIABLES k, phase, eff, set, out
vars == <<k, phase, eff, set, out>>
S == Situation(k)
Init == k \in 1..N /\ phase = "start" /\ eff = Defaults /\ set = {} /\ out = <<>>
ReadFlags ==
  /\ phase = "start"
  /\ set' = { s \in Settings : S.flags[s] # Unset }
  /\ eff' = [ s \in Settings |-> IF S.flags[s] # Unset THEN S.flags[s] ELSE eff[s] ]
  /\ phase' = "file" /\ UNCHANGED <<k, out>>
ReadFile ==
  /\ phase = "file"
  /\ eff' = IF Counts(S.at) THEN [ s \in Settings |-> IF s \notin set /\ S.file[s] # Unset THEN S.file[s] ELSE eff[s] ] ELSE eff
  /\ set' = IF Counts(S.at) THEN set \union { s \in Settings : S.file[s] # Unset } ELSE set
  /\ phase' = "check" /\ UNCHANGED <<k, out>>

IsBad(s, v) == \/ \E q \in 1..Len(BadFlag[s]) : BadFlag[s][q] = v
               \/ \E q \in 1..Len(BadFile[s]) : BadFile[s][q] = v
\* a flag that cannot be read is refused though nothing depends on it
Refused == \/ S.at \in {"missing", "broken"}
           \/ \E s \in Settings : IsBad(s, eff[s])
           \/ eff.db = Unset

(* ---------------------------------------------------------------- effects -- *)
Dirs == {".", "pa", "pb", "pa/sub"}
Under(d, top) == d = top \/ top = "." \/ (top = "pa" /\ d = "pa/sub")
Path(d, f) == (IF d = "." THEN "" ELSE d \o "/") \o f \o ".go"
Matches(rx, d, f) == CASE rx = "fa[.]go$" -> f = "fa" [] rx = "f[b][.]go$" -> f = "fb" [] rx = "/sub/" -> d = "pa/sub" [] rx = "/p[b]/" -> d = "pb"
Top == IF eff.wd = <<"cwd">> THEN S.cwd ELSE eff.wd[1]     \* input files are named from here
InForce(d, f) ==
  LET top == Top IN
  /\ IF eff.r = <<"true">> THEN Under(d, top) ELSE d = top
  /\ \/ eff.f = Unset /\ eff.rx = Unset
     \/ \E q \in 1..Len(eff.f) : eff.f[q] = Path(d, f)
     \/ \E q \in 1..Len(eff.rx) : Matches(eff.rx[q], d, f)
OutName(f) == CASE eff.o[1] = "%s_x.go" -> f \o "_x.go" [] eff.o[1] = "gen_%s.go" -> "gen_" \o f \o ".go" [] eff.o[1] = "out.go" -> f \o "out.go"
                [] OTHER -> f \o "_gosql.go"
\* the fields of the record: ID, Name, which the tags leave out, and Num inside In
Tagged(t, n) == CASE t = "json" -> (CASE n = "ID" -> "id" [] n = "In" -> "in" [] OTHER -> "num")
                  [] t = "key" -> (CASE n = "ID" -> "k_id" [] n = "In" -> "" [] OTHER -> "k_num")
                  [] t = "_t1" -> (CASE n = "ID" -> "" [] n = "In" -> "t_in" [] OTHER -> "t_num")
                  [] OTHER -> n
Left == IF eff.tag[1] = "" THEN <<"Name">> ELSE <<>>
Joined(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o eff.sep[1] \o b
ColKeys == LET t == eff.tag[1] ks == <<Tagged(t, "ID"), IF eff.base = <<"true">> THEN Tagged(t, "Num") ELSE Joined(Tagged(t, "In"), Tagged(t, "Num"))>>
        IN SelectSeq(ks, LAMBDA s : s # "") \o Left
Effect == [ ok |-> TRUE, top |-> Top, files |-> { [ dir |-> df[1], src |-> df[2], name |-> OutName(df[2]) ] : df \in { x \in Dirs \X {"fa", "fb"} : InForce(x[1], x[2]) } },
            facts |-> [ method |-> eff.name[1], ctx |-> eff.ctx = <<"true">>, arg |-> eff.arg[1], quoted |-> eff.qid = <<"true">>,
                        coalesce |-> eff.db = <<"db2">>, keys |-> ColKeys, conv |-> eff.conv # Unset ] ]
Decide ==
  /\ phase = "check"
  /\ out' = IF Refused THEN [ ok |-> FALSE ] ELSE Effect
  /\ PrintT("TRACE " \o ToJson([ k |-> k, s |-> S, want |-> out' ]))
  /\ phase' = "done" /\ UNCHANGED <<k, eff, set>>
Spec == Init /\ [][ReadFlags \/ ReadFile \/ Decide]_vars

(* flag, else file, else default; each for itself *)
Priority == phase \in {"check", "done"} =>
  \A s \in Settings : eff[s] = IF S.flags[s] # Unset THEN S.flags[s] ELSE IF Counts(S.at) /\ S.file[s] # Unset THEN S.file[s] ELSE Defaults[s]
(* a decoy never matters, a refusal writes nothing *)
NothingOnRefusal == (phase = "done" /\ Refused) => out = [ ok |-> FALSE ]
=============================================================================
