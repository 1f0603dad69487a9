-------------------------------- MODULE Tree ---------------------------------
(* Runs of the command over a tree of packages (C14, C15).  A tree has Go      *)
(* source files with type declarations; a run selects files, finds the         *)
(* targets declared in them, and either writes one output per file with        *)
(* targets or changes nothing at all.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

--------------------------------------------------------------------------------
(* What a target is (C15).                                                     *)
QueryPrefixes  == {"select", "insert", "update", "delete", "filter"}
OtherPrefixes  == {"upsert", "selec", "myselect", "deleted"}   \* the last one does begin with a prefix
Cases   == {"lower", "title", "upper", "mixed"}
Forms   == {"struct", "copy", "alias", "int", "func", "iface", "local"}
Ignores == {"no", "spec", "directive", "group", "grouped", "long", "detached", "near"}

\* "deleted" is "delete" followed by "d"
BeginsWithPrefix(p) == p \in QueryPrefixes \cup {"deleted"}
\* a directive counts when it is part of the documentation of the type or of the group it is declared in
Ignored(i) == i \in {"spec", "directive", "group", "grouped", "long"}
IsTarget(d) == BeginsWithPrefix(d.prefix) /\ d.form \in {"struct", "copy"} /\ ~Ignored(d.ignore)

--------------------------------------------------------------------------------
(* Which files are looked at (C15).                                            *)
\* a directory is a sequence of names below the root of the tree; a file is <<directory, base name>>
Below(d, e) == Len(e) >= Len(d) /\ SubSeq(e, 1, Len(d)) = d
InScope(o, f) == IF o.r THEN Below(o.wd, f[1]) ELSE f[1] = o.wd
\* a file option is a path relative to the working directory, an expression is matched with the whole path
Named(o, f) == \E p \in o.f : (o.wd \o p[1]) = f[1] /\ p[2] = f[2]
\* expressions: "base:x" the file's name is x, "dir:x" some directory on its path is x, "any", "none"
Matches(x, f) == \/ x = <<"any">>
                 \/ x[1] = "base" /\ x[2] = f[2]
                 \/ x[1] = "dir" /\ \E i \in 1..Len(f[1]) : f[1][i] = x[2]
Matched(o, f) == \E x \in o.rx : Matches(x, f)
Chosen(o, f) == InScope(o, f) /\ ((o.f = {} /\ o.rx = {}) \/ Named(o, f) \/ Matched(o, f))
=============================================================================
