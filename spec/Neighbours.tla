----------------------------- MODULE Neighbours -----------------------------
(* Targets and their neighbours (C17): what is generated for a target is a     *)
(* function of the target, in the package it is in, and of nothing else.       *)
(* A history lays a catalogue of targets, which share record types, out over   *)
(* the files of packages in varying sets and orders, and runs the tool over    *)
(* the tree, a package or a file of it, on top of what earlier runs left.      *)
(* Gen(t) is not interpreted here: it is what a run on t alone gives.          *)
EXTENDS RelGen, Json
CONSTANTS M,      \* names of targets; there are two targets of every name, for different packages
          NH,     \* histories
          Steps,  \* runs of a history
          Seed

Targets == 1..(2 * M)
(* -------------------------------------------------------------- targets -- *)
TargetKinds == <<"select", "select", "select", "insert", "update", "delete", "filter", "filter">>
Recs == <<"rec", "rec", "rec", "twin", "twin", "own", "own", "emb", "lit", "hook", "opt", "deep", "qual", "qual", "shared", "shared">>
WrapsOf(kind) == CASE kind = "select" -> <<"ptr", "val", "ptrs", "vals", "func", "iter", "named", "ptrs">>
                   [] kind = "insert" -> <<"ptr", "val", "ptrs", "vals">>
                   [] kind = "update" -> <<"ptr", "val", "ptrs">>
                   [] kind = "delete" -> <<"ptr", "ptrs", "vals">>
                   [] OTHER -> <<"ptr", "val", "ptrs">>
Desc(t) ==
  LET n == (t - 1) % M
      x0 == Mix(n % P, Seed + 11)
      \* the two targets of a name are of one kind, and sometimes the same in every other way too
      x == IF t > M /\ ~Chance(x0, 1, 30) THEN Mix(t % P, Seed + 12) ELSE x0
      kind == Pick(x0, 2, TargetKinds)
      rec == Pick(x, 3, Recs)
      wrap == Pick(x, 4, WrapsOf(kind))
      alias == Pick(x, 6, <<"", "", "a", "a", "b">>)
      selout == Pick(x, 7, <<"rows", "rows", "rows", "rows", "count", "exists">>)
      \* a record with a column of "a" is for targets that give this name to their relation
      unqual == rec = "qual" /\ alias # "a" /\ ~(kind = "select" /\ selout # "rows")
      slice == rec \notin {"lit", "qual"} /\ wrap \in {"ptrs", "vals", "iter", "named"}
  IN [ t |-> t, name |-> n, kind |-> kind, rec |-> rec,
       wrap |-> IF rec = "lit" THEN "val" ELSE IF rec = "qual" THEN "ptr" ELSE IF wrap \in {"iter", "named"} /\ rec # "rec" THEN "ptrs" ELSE wrap,
       table |-> Pick(x, 5, <<"nt", "nt", "nu">>), alias |-> alias,
       out |-> CASE kind = "select" -> selout
                 [] kind = "delete" -> "ret"
                 [] kind \in {"insert", "update"} -> (IF slice /\ kind = "update" THEN "none" ELSE Pick(x, 7, <<"none", "ret", "result", "none">>))
                 [] OTHER -> Pick(x, 7, <<"v1", "v2">>),
       where |-> (kind \in {"select", "delete"} \/ (kind = "update" /\ ~slice)) /\ Chance(x, 8, 60),
       join |-> kind = "select" /\ Chance(x, 9, 30),
       force |-> kind \in {"insert", "update"} /\ Chance(x, 10, 30),
       deflt |-> kind \in {"insert", "update"} /\ Chance(x, 11, 25),
       conflict |-> kind = "insert" /\ ~slice /\ Chance(x, 12, 30),
       handler |-> kind # "filter" /\ Chance(x, 13, 25), ctx |-> kind # "filter" /\ Chance(x, 14, 25),
       bad |-> IF unqual THEN "qualifier" ELSE IF Chance(x, 15, 8) THEN Pick(x, 16, <<"column", "relation", "tag", "twice">>) ELSE "" ]
IsBad(t) == Desc(t).bad # ""

(* ---------------------------------------------------------------- trees -- *)
Packages == <<"p", "q", "p/sub">>
Files == <<"x", "y">>
PackagesOf(t) == IF t <= M THEN <<"p", "p/sub">> ELSE <<"q">>
Nowhere == <<>>
(* a history may be about one target that is refused, with those around it that share its record *)
BadSeq == SetToSortSeq({ t \in Targets : IsBad(t) }, <)
Focus(hh) == IF hh % 3 = 0 /\ BadSeq # <<>> THEN BadSeq[1 + ((hh \div 3) % Len(BadSeq))] ELSE 0
Likely(t, b) == IF b = 0 THEN (IF IsBad(t) THEN 2 ELSE 45)
                ELSE IF t = b THEN 75 ELSE IF IsBad(t) THEN 0
                ELSE IF Desc(t).rec = Desc(b).rec THEN 85 ELSE 20
Place(t, x, b) == IF Chance(x, t, Likely(t, b)) THEN << Pick(x, 300 + t, PackagesOf(t)), Pick(x, 600 + t, Files) >> ELSE Nowhere
(* the targets of a file in the order of a number *)
InFile(pl, o, p, f) ==
  LET S == { t \in Targets : pl[t] = <<p, f>> } IN
  SetToSortSeq(S, LAMBDA a, b : Mix(a % P, o) < Mix(b % P, o) \/ (Mix(a % P, o) = Mix(b % P, o) /\ a < b))
Absent == <<0>>

VARIABLES h, step, place, order, out, hist
vars == <<h, step, place, order, out, hist>>
X == Mix((h * 131 + step * 17) % P, Seed + 21)
AllFiles == { <<Packages[i], Files[j]>> : i \in 1..Len(Packages), j \in 1..Len(Files) }
Runs == << [ wd |-> ".", r |-> TRUE, f |-> <<>> ], [ wd |-> ".", r |-> TRUE, f |-> <<>> ], [ wd |-> "p", r |-> FALSE, f |-> <<>> ], [ wd |-> "p", r |-> TRUE, f |-> <<>> ],
           [ wd |-> "q", r |-> FALSE, f |-> <<"x">> ], [ wd |-> ".", r |-> TRUE, f |-> <<"y">> ] >>
InRun(run, pf) == /\ \/ run.wd = pf[1] \/ (run.r /\ (run.wd = "." \/ (run.wd = "p" /\ pf[1] = "p/sub")))
                  /\ run.f = <<>> \/ run.f[1] = pf[2]
Tree(pl, o) == [ pf \in AllFiles |-> InFile(pl, o[pf], pf[1], pf[2]) ]

Init == /\ h \in 1..NH /\ step = 0 /\ hist = <<>>
        /\ place = [ t \in Targets |-> Place(t, Mix(h % P, Seed + 20), Focus(h)) ]
        /\ order = [ pf \in AllFiles |-> h ] /\ out = [ pf \in AllFiles |-> Absent ]
Step ==
  /\ step < Steps
  /\ LET edit == step > 0 /\ ~Chance(X, 1, 25)          \* else the run is one more of the same
         pl == IF edit THEN [ t \in Targets |-> IF Chance(X, 1000 + t, 15) THEN Place(t, X, Focus(h)) ELSE place[t] ] ELSE place
         o == IF edit THEN [ pf \in AllFiles |-> IF Chance(X, 2000 + Len(pf[1]) * 2 + (IF pf[2] = "x" THEN 0 ELSE 1), 40) THEN X ELSE order[pf] ] ELSE order
         tree == Tree(pl, o)
         run == IF ~edit /\ step > 0 THEN hist[step].run ELSE Pick(X, 2, Runs)
         chosen == { pf \in AllFiles : InRun(run, pf) /\ tree[pf] # <<>> }
         bad == UNION { { t \in Range(tree[pf]) : IsBad(t) } : pf \in chosen }
         new == IF bad = {} THEN [ pf \in AllFiles |-> IF pf \in chosen THEN tree[pf] ELSE out[pf] ] ELSE out
     IN /\ place' = pl /\ order' = o /\ out' = new
        /\ hist' = Append(hist, [ run |-> run, ok |-> bad = {}, bad |-> bad,
                                  tree |-> { [ dir |-> pf[1], file |-> pf[2], ts |-> tree[pf] ] : pf \in { q \in AllFiles : tree[q] # <<>> } },
                                  out |-> { [ dir |-> pf[1], file |-> pf[2], ts |-> new[pf] ] : pf \in { q \in AllFiles : new[q] # Absent } } ])
  /\ step' = step + 1 /\ UNCHANGED h
Emit == /\ step = Steps /\ PrintT("TRACE " \o ToJson([ h |-> h, steps |-> hist ]))
        /\ h = 1 => \A t \in Targets : PrintT("CAT " \o ToJson(Desc(t)))
        /\ step' = step + 1 /\ UNCHANGED <<h, place, order, out, hist>>
Spec == Init /\ [][Step \/ Emit]_vars

(* a file holds the code of targets that were in it, no name twice in a package *)
OneName == \A p \in { pf[1] : pf \in AllFiles } : \A a, b \in Targets : (a # b /\ place[a] # Nowhere /\ place[b] # Nowhere /\ place[a][1] = p /\ place[b][1] = p) => Desc(a).name # Desc(b).name
(* a run over an unchanged tree changes nothing *)
Reproducible == step > 1 /\ step <= Steps => (hist[step].tree = hist[step - 1].tree /\ hist[step].run = hist[step - 1].run => hist[step].out = hist[step - 1].out)
NothingOnRefusal == step > 1 /\ step <= Steps => (~hist[step].ok => hist[step].out = hist[step - 1].out)
=============================================================================
