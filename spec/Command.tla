------------------------------ MODULE Command --------------------------------
(* The life of a tree under repeated runs of the command (C14): sources are    *)
(* edited, output files come into being, are replaced by hand, or are blocked; *)
(* a run succeeds as a whole or leaves every file as it was.                   *)
EXTENDS Tree, Json

CONSTANTS Runs    \* how many runs a history has

Src == {"a", "b", "a_x", "c"}                                 \* source files; c lies in a subdirectory
DirOf(f) == IF f = "c" THEN <<"sub">> ELSE <<>>
Targets == {"a1", "a2", "b1", "x1", "c1"}
FileOf(t) == CASE t \in {"a1", "a2"} -> "a" [] t = "b1" -> "b" [] t = "x1" -> "a_x" [] OTHER -> "c"
Good   == {"good1", "good2"}
Bad    == {"tag", "relation", "column", "twice"}              \* malformed directive, missing relation, missing column, contradiction
Bodies == Good \cup Bad \cup {"gone"}                         \* gone: ignored
Formats == {"default", "_x", "same", "empty", "suffix"}       \* %s_gosql.go, %s_x, %s, "", out
\* the base name of the output of a source file
Out(fmt, f) == CASE fmt = "default" -> f \o "_gosql" [] fmt = "_x" -> f \o "_x" [] fmt = "suffix" -> f \o "out" [] OTHER -> f
Paths == { <<DirOf(f), Out(fmt, f)>> : fmt \in {"default", "_x", "suffix"}, f \in Src } \ { <<DirOf(f), f>> : f \in Src }

\* what the files are called in reality (a_x is a with a suffix): nothing that happens depends on it
Namings == << [a |-> "a", b |-> "b", c |-> "c"], [a |-> "catalog", b |-> "b", c |-> "go"], [a |-> "x.log", b |-> "logo", c |-> "v1.2"],
              [a |-> "b.", b |-> "a b", c |-> "100%d"], [a |-> "A-1", b |-> "gosql", c |-> "sub"], [a |-> "dog", b |-> "ego.", c |-> "a"],
              [a |-> "x.go.y", b |-> "b.gold", c |-> "c.gosql"], [a |-> "A.go-B", b |-> "go.go_", c |-> "m.gogo"] >>

C(k) == [k |-> k, gen |-> {}]
Written(S) == [k |-> "generated", gen |-> S]
VARIABLES src,    \* what each target looks like
          disk,   \* what is at each path an output can have: contents of some kind
          hist
vars == <<src, disk, hist>>

Of(f) == { t \in Targets : FileOf(t) = f /\ src[t] # "gone" }
\* a run with no database, or with one that is not there, has nothing to check against
\* (the list is so long to have a random choice succeed often enough)
Hows == << <<"default", "ok">>, <<"default", "ok">>, <<"default", "ok">>, <<"suffix", "ok">>, <<"default", "ok">>, <<"suffix", "ok">>, <<"default", "ok">>, <<"_x", "ok">>,
           <<"default", "ok">>, <<"suffix", "ok">>, <<"default", "ok">>, <<"default", "ok">>,
           <<"same", "ok">>, <<"empty", "ok">>, <<"default", "missing">>, <<"suffix", "wrong">> >>
Selections == << {}, {"a"}, {"a", "b"}, {"b", "c"} >>
Option(r, f, i) == [r |-> r, f |-> Selections[f], fmt |-> Hows[i][1], db |-> Hows[i][2]]
Dot(S) == { <<DirOf(f), f>> : f \in S }
ChosenFiles(o) == { f \in Src : Chosen([wd |-> <<>>, r |-> o.r, f |-> Dot(o.f), rx |-> {}], <<DirOf(f), f>>) /\ Of(f) # {} }
BadOnes(o)  == { t \in UNION { Of(f) : f \in ChosenFiles(o) } : src[t] \in Bad }
OutPath(o, f) == <<DirOf(f), Out(o.fmt, f)>>
Collides(o) == \E f \in ChosenFiles(o) : OutPath(o, f) \in Dot(Src)
Blocked(o)  == { f \in ChosenFiles(o) : OutPath(o, f) \in Paths /\ disk[OutPath(o, f)].k \in {"dir", "dangling"} }
Succeeds(o) == o.db = "ok" /\ BadOnes(o) = {} /\ ~Collides(o) /\ Blocked(o) = {}
Generated(f) == Written({ <<t, src[t]>> : t \in Of(f) })

Log(s) == hist' = Append(hist, s)
DiskList(d) == { [dir |-> p[1], base |-> p[2], is |-> d[p]] : p \in { q \in Paths : d[q].k # "-" } }

\* most targets are good most of the time
Biased == [t \in Targets |-> Good \cup {"gone"}]
Init == /\ src \in [Targets -> Good \cup {"gone"}]
        /\ disk = [p \in Paths |-> C("-")]
        /\ \E n \in DOMAIN Namings : hist = << [do |-> "init", src |-> src, names |-> Namings[n]] >>
Edit(t, b) == /\ src[t] # b /\ hist[Len(hist)].do \in {"run", "init"}
              /\ src' = [src EXCEPT ![t] = b] /\ UNCHANGED disk
              /\ Log([do |-> "edit", t |-> t, b |-> b])
Place(p, c) == /\ disk[p].k # c /\ hist[Len(hist)].do \in {"run", "init"}
               /\ disk' = [disk EXCEPT ![p] = C(c)] /\ UNCHANGED src
               /\ Log([do |-> "place", dir |-> p[1], base |-> p[2], is |-> c])
Run(o) == /\ hist[Len(hist)].do # "init"
          /\ disk' = (IF Succeeds(o) THEN [p \in Paths |-> IF \E f \in ChosenFiles(o) : OutPath(o, f) = p
                                                           THEN Generated(CHOOSE f \in ChosenFiles(o) : OutPath(o, f) = p) ELSE disk[p]] ELSE disk)
          /\ UNCHANGED src
          \* a source file is an input of the run or not the output of one
          /\ \A f \in ChosenFiles(o) : OutPath(o, f) \in Dot(Src) => OutPath(o, f) \in Dot(ChosenFiles(o))
          /\ Log([do |-> "run", o |-> o, ok |-> Succeeds(o), disk |-> DiskList(disk'),
                  bad |-> BadOnes(o), collides |-> Collides(o), blocked |-> { OutPath(o, f) : f \in Blocked(o) }])
Latest == hist[Len(hist)]
NRuns == Len(SelectSeq(hist, LAMBDA s : s.do = "run"))
Next == /\ NRuns < Runs
        /\ \/ \E r \in BOOLEAN, f \in DOMAIN Selections, i \in DOMAIN Hows : Run(Option(r, f, i))
           \/ \E t \in Targets, b \in Bodies : Edit(t, b)
           \/ \E t \in Targets, b \in Good : Edit(t, b)
           \/ \E p \in Paths, c \in {"-", "text", "garbage", "dir", "dangling"} : Place(p, c)
Finish == NRuns = Runs /\ Latest.do = "run" /\ Log([do |-> "end"]) /\ UNCHANGED <<src, disk>>
Spec == Init /\ [][Next \/ Finish]_vars

Ran == Latest.do = "run"
\* all or nothing, and nothing but outputs
AllOrNothing == [][ (Len(hist') > Len(hist) /\ hist'[Len(hist')].do = "run") =>
                    /\ ~hist'[Len(hist')].ok => disk' = disk
                    /\ \A p \in Paths : disk'[p] # disk[p] => \E f \in ChosenFiles(hist'[Len(hist')].o) : OutPath(hist'[Len(hist')].o, f) = p
                    /\ src' = src ]_vars
\* after a success every chosen file has its output, and it says what the source says
Complete == (Ran /\ Latest.ok) => \A f \in ChosenFiles(Latest.o) : disk[OutPath(Latest.o, f)] = Generated(f)
Emit == Latest.do = "end" => PrintT("TRACE " \o ToJson(hist))
=============================================================================
