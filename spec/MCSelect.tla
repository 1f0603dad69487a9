------------------------------ MODULE MCSelect -------------------------------
(* Every declaration with its verdict, and every selection of files with the   *)
(* files chosen, over a small tree.                                            *)
EXTENDS Tree, Json
CONSTANT Many   \* how many file options and expressions are given at most
VARIABLES what, decl, opts, chosen
vars == <<what, decl, opts, chosen>>

Root == <<>>
TreeFiles == { <<Root, "a">>, <<Root, "b">>, <<Root, "ab">>, <<(<<"sub">>), "a">>, <<(<<"sub">>), "c">>, <<(<<"sub", "deep">>), "a">>,
               <<(<<"sub", "deep">>), "d">>, <<(<<"side">>), "c">> }
Dirs == { f[1] : f \in TreeFiles }
RelFiles == { <<Root, "a">>, <<Root, "b">>, <<Root, "zz">>, <<(<<"sub">>), "a">>, <<(<<"deep">>), "d">> }
Exprs == { <<"any">>, <<"none">>, <<"base", "a">>, <<"base", "c">>, <<"dir", "sub">>, <<"dir", "deep">> }
AtMost(S, n) == { T \in SUBSET S : Cardinality(T) <= n }

None == [prefix |-> "-", case |-> "-", form |-> "-", ignore |-> "-"]
NoOpts == [wd |-> Root, r |-> FALSE, f |-> {}, rx |-> {}]
Init == \/ /\ what = "decl" /\ opts = NoOpts /\ chosen = {}
           /\ decl \in [prefix : QueryPrefixes \cup OtherPrefixes, case : Cases, form : Forms, ignore : Ignores]
        \/ /\ what = "files" /\ decl = None /\ chosen = {}
           /\ opts \in [wd : Dirs, r : BOOLEAN, f : AtMost(RelFiles, Many), rx : AtMost(Exprs, Many)]
           /\ Cardinality(opts.f) + Cardinality(opts.rx) <= Many
Run == /\ what = "files" /\ chosen = {} /\ chosen' = { f \in TreeFiles : Chosen(opts, f) } /\ what' = "ran"
       /\ UNCHANGED <<decl, opts>>
Next == Run
Spec == Init /\ [][Next]_vars

\* nothing outside the working directory is looked at, and options only narrow
Inside  == what = "ran" => \A f \in chosen : Below(opts.wd, f[1])
Narrows == what = "ran" => chosen \subseteq { f \in TreeFiles : Chosen([opts EXCEPT !.f = {}, !.rx = {}], f) }
Emit == /\ what = "decl" => PrintT("DECL " \o ToJson([d |-> decl, target |-> IsTarget(decl)]))
        /\ what = "ran" => PrintT("FILES " \o ToJson([o |-> opts, chosen |-> chosen]))
=============================================================================
