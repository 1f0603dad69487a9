------------------------------ MODULE FilterGen ------------------------------
(* Generated filter types: C20.                                                 *)
(*                                                                              *)
(* A description is a record type (a tree of fields and nested or embedded      *)
(* structs) with a filter type over it; packages of descriptions are generated  *)
(* under different settings.  Keys(d) says which keys the generated filter      *)
(* knows and what each stands for, Methods(d) which typed methods it has.  A    *)
(* behaviour builds a filter step by step (by key, by method, by sort key, by   *)
(* text search) and runs it over a table in which every column orders the rows  *)
(* in its own way and equals a given value in a row of its own.                 *)
EXTENDS RelGen
CONSTANTS ND, NP, NC, Seed   \* descriptions per package, packages, combined runs, base number

(* ------------------------------------------------------------ the table -- *)
Pfxs == <<"", "x_", "y_", "x_x_", "x_y_", "y_x_", "y_y_">>
Bases == <<"k", "m", "t", "u", "a", "j", "d">>
Family == [ k |-> "int", m |-> "int", id |-> "int", Odd |-> "int", t |-> "text", u |-> "text", a |-> "arr", j |-> "json", d |-> "time", zz |-> "int" ]
NotNulls == {"m", "u", "id"}
NRow == 52
Idx(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
(* columns are numbered 1..51; 53 is prime, so that every column holds 1..52 in an order of its own *)
ColNum(col) == CASE col.b = "id" -> 1 [] col.b = "Odd" -> 51
              [] OTHER -> 1 + (Idx(Pfxs, col.p) - 1) * Len(Bases) + Idx(Bases, col.b)
ColName(col) == col.p \o col.b
InTable(col) == col.b # "zz" /\ (col.b \in {"id", "Odd"} => col.p = "")
Nullable(col) == col.b \notin NotNulls
At(col, r) == LET v == (ColNum(col) * r) % 53 IN IF Nullable(col) /\ v = 26 THEN 0 ELSE v   \* 0: NULL
InvMod == TLCEval([ n \in 1..NRow |-> CHOOSE r \in 1..NRow : (n * r) % 53 = 1 ])
RowOf(col, v) == (v * InvMod[ColNum(col)]) % 53
RowsAt(col, v) == IF v \in 1..NRow /\ ~(Nullable(col) /\ v = 26) THEN {RowOf(col, v)} ELSE {}
Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
(* ordering by a column: the row with NULL is last unless it is descending and not told otherwise *)
Ordered(col, desc, last) ==
  LET vs == [ q \in 1..NRow |-> IF desc THEN 53 - q ELSE q ]
      all == TLCEval([ q \in 1..NRow |-> RowOf(col, vs[q]) ])
      some == IF ~Nullable(col) THEN all ELSE SelectSeq(all, LAMBDA r : r # RowOf(col, 26))
  IN IF ~Nullable(col) THEN some
     ELSE IF desc /\ ~last THEN <<RowOf(col, 26)>> \o some ELSE some \o <<RowOf(col, 26)>>
Word(n) == "w" \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
DocRow(doc, n) == IF doc = "doc1" THEN n ELSE (n * InvMod[5]) % 53

(* ---------------------------------------------------------- descriptions -- *)
Names == <<"Alpha", "Beta", "Gamma", "A", "B", "AB", "BA", "Kind">>
Odd == <<"Init", "And", "Or", "UnmarshalFQL", "UnmarshalSort", "TextSearch", "Rec", "Ctor", "Limit", "AND", "op", "val", "f">>
Tags == <<"a", "b", "cD", "e_f", "g2">>
NoFck == [ on |-> FALSE, tag |-> <<>>, sep |-> <<>>, base |-> <<>> ]
Fck(x, pct) == IF ~Chance(x, 201, pct) \/ Pick(x, 202, <<0, 1, 2, 3>>) + Pick(x, 203, <<0, 1, 2, 3, 4>>) + Pick(x, 204, <<0, 1, 2>>) = 0 THEN NoFck
               ELSE [ on |-> TRUE,
                      tag |-> Pick(x, 202, << <<>>, <<"json">>, <<"key">>, <<"">> >>),
                      sep |-> Pick(x, 203, << <<>>, <<"_">>, <<".">>, <<"-">>, <<"">> >>),
                      base |-> Pick(x, 204, << <<>>, <<TRUE>>, <<FALSE>> >>) ]
TagVal(x, k) == IF Chance(x, k, 14) THEN "" ELSE IF Chance(x, k + 1, 10) THEN "-" ELSE Pick(x, k + 2, Tags)
Opts(x, k) == Pick(x, k, << <<>>, <<>>, <<>>, <<>>, <<"ro">>, <<"wo">>, <<"xf">>, <<"nn">>, <<"-f">>, <<"-r">>, <<"-r", "+f">>, <<"-N">>, <<"nn", "+N">>, <<"-s">>, <<"-iu">>, <<"-sf">>, <<"xf", "+f">> >>)
GoFor(fam) == CASE fam = "int" -> <<"int", "pint", "int64", "num", "num", "nulli">>
                [] fam = "text" -> <<"str", "pstr", "strn", "nulls">>
                [] fam = "arr" -> <<"ints", "int64s">>
                [] fam = "json" -> <<"jmap", "jstruct", "jany", "jinl", "jptr">>
                [] fam = "time" -> <<"time", "ptime">>
Leaf(x, name, set) ==
  LET b == IF Chance(x, 301, 6) THEN "zz" ELSE IF Chance(x, 302, 5) THEN "id" ELSE IF set.qid /\ Chance(x, 303, 8) THEN "Odd"
           ELSE IF Chance(x, 304, 75) THEN Bases[Upto(x, 305, 3) + 1] ELSE Pick(x, 305, Bases)
  IN [ k |-> "leaf", name |-> name, b |-> b, json |-> TagVal(x, 310), om |-> Chance(x, 320, 30), key |-> TagVal(x, 330),
       fck |-> Fck(Mix(x, 1), 10), opts |-> Opts(x, 340), go |-> Pick(x, 350, GoFor(Family[b])), kids |-> <<>>, pfx |-> "", mode |-> "" ]
RECURSIVE Tree(_, _, _, _)
Tree(x, depth, path, set) ==
  LET n == IF depth = 0 THEN 3 + Upto(x, 1, 3) ELSE 1 + Upto(x, 1, 2)
      odd == IF Chance(x, 2, 8) THEN 1 + Upto(x, 3, n - 1) ELSE 0
  IN [ q \in 1..n |->
        LET y == Mix(Mix(x, 11 + q), depth)
            plain == IF q = odd THEN Pick(y, 4, Odd) ELSE Names[((Upto(x, 5, 7) + q * 3) % 8) + 1]
        IN IF depth < 3 /\ Chance(y, 6, IF depth = 0 THEN 40 ELSE 30)
           THEN LET mode == Pick(y, 7, <<"named", "named", "embed", "ptr", "embptr", "inline">>) IN
                [ k |-> "nest", mode |-> mode, name |-> IF mode \in {"embed", "embptr"} THEN "E" \o path \o "_" \o ToString(q) ELSE plain,
                  pfx |-> IF depth = 2 THEN "" ELSE Pick(y, 8, <<"", "", "x_", "y_">>),
                  json |-> TagVal(y, 20), om |-> Chance(y, 24, 20), key |-> TagVal(y, 30), fck |-> Fck(Mix(y, 2), 15), opts |-> Opts(y, 40),
                  kids |-> Tree(Mix(y, 3), depth + 1, path \o "_" \o ToString(q), set), b |-> "", go |-> "" ]
           ELSE Leaf(y, plain, set) ]
Settings(p) == LET x == Mix(p * 131 + 3, Seed) IN
  [ tag |-> << "json", "key", "" >>[(p % 3) + 1], sep |-> Pick(x, 1, <<".", ".", "_", "-", "">>), base |-> Chance(x, 2, 30),
    qid |-> p % 2 = 0, conv |-> Chance(x, 3, 60), file |-> Chance(x, 4, 50) ]
SetTab == TLCEval([ p \in 1..NP |-> Settings(p) ])
Desc(i) ==
  LET p == (i - 1) \div ND + 1
      x == Mix((Seed * 977 + i) % P, i \div 40000 + 7)
  IN [ pack |-> p, fields |-> Tree(Mix(x, 1), 0, ToString(i), SetTab[p]), v2 |-> Chance(x, 2, 50), ctor |-> Pick(x, 3, <<"embed", "field", "maker", "makerfield">>),
       alias |-> Chance(x, 4, 50), doc |-> Pick(x, 5, <<"", "doc1", "doc2">>), docq |-> Chance(x, 6, 50),
       rec |-> Pick(x, 7, <<"own", "own", "data", "data", "lit">>), rtype |-> Pick(x, 8, <<"ptr", "val", "sliceptr">>),
       blank |-> Chance(x, 9, 20), first |-> Chance(x, 10, 30) ]

(* ------------------------------------------------- what is filterable -- *)
Acts(opts) ==   \* whether the options leave the field filterable, and whether NULL counts
  FoldLeft(LAMBDA m, o : CASE o \in {"wo", "xf", "-f", "-r", "-sf"} -> [ m EXCEPT !.f = FALSE ]
                           [] o \in {"+f"} -> [ m EXCEPT !.f = TRUE ]
                           [] o \in {"nn", "-N"} -> [ m EXCEPT !.nn = TRUE ]
                           [] o = "+N" -> [ m EXCEPT !.nn = FALSE ]
                           [] OTHER -> m, [ f |-> TRUE, nn |-> FALSE ], opts)
RECURSIVE Leaves(_, _, _)
Leaves(fs, sel, pfx) ==
  FoldLeft(LAMBDA acc, f : acc \o (IF f.k = "leaf" THEN << [ f |-> f, sel |-> sel, col |-> [ p |-> pfx, b |-> f.b ] ] >>
                                   ELSE Leaves(f.kids, Append(sel, f), pfx \o f.pfx)), <<>>, fs)
Exported(name) == name \notin {"op", "val", "f"}
Seen(d, l) == (d.rec # "data" \/ Exported(l.f.name))
Filterable(d, l) == /\ Seen(d, l) /\ InTable(l.col) /\ Acts(l.f.opts).f
                    /\ \A q \in 1..Len(l.sel) : Acts(l.sel[q].opts).f /\ (d.rec = "data" => Exported(l.sel[q].name))
Kept(d) == LET ls == TLCEval(Leaves(d.fields, <<>>, "")) IN TLCEval(SelectSeq(ls, LAMBDA l : Filterable(d, l)))

(* ---------------------------------------------------------------- keys -- *)
Tagged(node, tag) == IF tag = "json" THEN node.json ELSE node.key
Over(cfg, k) == [ tag |-> IF k.tag = <<>> THEN cfg.tag ELSE k.tag[1], sep |-> IF k.sep = <<>> THEN cfg.sep ELSE k.sep[1],
                  base |-> IF k.base = <<>> THEN cfg.base ELSE k.base[1] ]
Join(items, sep) == IF items = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(items), Tail(items))
Key(cfg0, l) ==
  LET ups == { q \in 1..Len(l.sel) : l.sel[q].fck.on }
      top == IF l.f.fck.on \/ ups = {} THEN 1 ELSE CHOOSE q \in ups : \A o \in ups : q <= o
      cfg == IF l.f.fck.on THEN Over(cfg0, l.f.fck) ELSE IF ups = {} THEN cfg0 ELSE Over(cfg0, l.sel[top].fck)
      chain == TLCEval(SubSeq(l.sel, top, Len(l.sel)) \o <<l.f>>)
      vals == TLCEval([ q \in 1..Len(chain) |-> Tagged(chain[q], cfg.tag) ])
  IN IF cfg.tag = "" THEN (IF cfg.base THEN l.f.name ELSE Join([ q \in 1..Len(chain) |-> chain[q].name ], cfg.sep))
     ELSE IF cfg.base THEN (IF Tagged(l.f, cfg.tag) = "-" THEN "" ELSE Tagged(l.f, cfg.tag))
     ELSE IF \E q \in 1..Len(vals) : vals[q] = "-" THEN ""
     ELSE Join(SelectSeq(vals, LAMBDA v : v # ""), cfg.sep)
Keyed(d, cfg) == LET ls == Kept(d) IN TLCEval([ q \in 1..Len(ls) |-> [ key |-> Key(cfg, ls[q]), col |-> ls[q].col,
                     null |-> d.v2 /\ Nullable(ls[q].col) /\ ~Acts(ls[q].f.opts).nn, conv |-> d.v2 /\ cfg.conv /\ ls[q].f.go = "num" ] ])
(* of several fields with one key the first has it *)
Keys(d, cfg) == LET ks == Keyed(d, cfg) IN
  SelectSeq(TLCEval([ q \in 1..Len(ks) |-> [ n |-> q ] @@ ks[q] ]), LAMBDA k : k.key # "" /\ \A o \in 1..k.n - 1 : ks[o].key # k.key)
KeySet(d, cfg) == LET ks == Keys(d, cfg) IN { ks[q].key : q \in 1..Len(ks) }
(* keys that other settings would give, plain names, and keys of what is left out *)
AltCfgs == { [ tag |-> t, sep |-> s, base |-> b ] : t \in {"json", "key", ""}, s \in {".", "_", ""}, b \in {TRUE, FALSE} }
Decoys(d, cfg) ==
  LET known == TLCEval(KeySet(d, cfg)) ls == TLCEval(Leaves(d.fields, <<>>, "")) IN
  (UNION { LET bare == TLCEval([ ls[q] EXCEPT !.f.fck = NoFck ]) IN { Key(c, bare) : c \in AltCfgs } \union {Key(cfg, ls[q]), ColName(ls[q].col), ls[q].f.name} : q \in 1..Len(ls) })
     \ (known \union {""})

(* ------------------------------------------------------------- methods -- *)
MName(l) == FoldLeft(LAMBDA a, b : a \o b.name, "", l.sel) \o l.f.name
CtorName(d) == CASE d.ctor = "embed" -> "Constructor" [] d.ctor = "maker" -> "Maker" [] OTHER -> "Ctor"
RecName(d) == IF d.blank THEN "_" ELSE "Rec"
Taken(d) == {"Init", "And", "Or", "AND", "OR", "UnmarshalFQL", "UnmarshalSort", "TextSearch", RecName(d), CtorName(d)}
MethodsOf(d) ==
  LET ls == Kept(d) ns == TLCEval([ q \in 1..Len(ls) |-> MName(ls[q]) ]) IN
  SelectSeq([ q \in 1..Len(ls) |-> [ name |-> ns[q], col |-> ls[q].col, go |-> ls[q].f.go, n |-> q ] ],
            LAMBDA m : /\ m.name \notin Taken(d)
                       /\ \A o \in 1..Len(ls) : o # m.n => ns[o] # m.name)
(* names that must not become methods: fields left out *)
Absent(d) == LET ls == Leaves(d.fields, <<>>, "")
                 ks == Kept(d)
             IN { MName(ls[q]) : q \in 1..Len(ls) } \ ({ MName(ks[q]) : q \in 1..Len(ks) } \union Taken(d)
                  \union {"Limit", "Page", "Offset", "Col", "OrderBy", "Filter"})

(* ---------------------------------------------------------- behaviours -- *)
Lit(fam, v) == [ fam |-> fam, v |-> v ]
RVal(x, k) == 1 + Upto(x, k, NRow - 1)

(* Typed methods hand arrays and JSON values to the driver as they are, which refuses them:
   known, and tried by the probes below only. *)
Unconverted == {"arr", "json"}

(* every single step a filter of this type allows, and every one it refuses *)
Singles(d, cfg, x) ==
  LET ks == TLCEval(Keys(d, cfg)) ms == TLCEval(MethodsOf(d)) IN
  FoldLeft(LAMBDA acc, k : acc \o
      << [ steps |-> << [ a |-> "sort", key |-> k.key, desc |-> FALSE ] >>, rows |-> Ordered(k.col, FALSE, TRUE), ord |-> TRUE, err |-> "" ],
         [ steps |-> << [ a |-> "sort", key |-> k.key, desc |-> TRUE ] >>, rows |-> Ordered(k.col, TRUE, k.null), ord |-> TRUE, err |-> "" ] >>
      \o (IF Family[k.col.b] \notin {"int", "text"} THEN <<>>
          ELSE LET v == RVal(x, k.n) IN
               << [ steps |-> << [ a |-> "fql", key |-> k.key, lit |-> Lit(Family[k.col.b], IF k.conv THEN v + 100 ELSE v) ] >>,
                    rows |-> Sorted(RowsAt(k.col, v)), ord |-> FALSE, err |-> "" ] >>), <<>>, ks)
  \o FoldLeft(LAMBDA acc, m : acc \o
      IF Family[m.col.b] \in Unconverted THEN << [ steps |-> << [ a |-> "method", go |-> m.go, key |-> m.name ] >>, rows |-> <<>>, ord |-> FALSE, err |-> "" ] >> ELSE
      << LET v == RVal(x, 60 + m.n) IN
         [ steps |-> << [ a |-> "call", go |-> m.go, key |-> m.name, lit |-> Lit(Family[m.col.b], v) ] >>, rows |-> Sorted(RowsAt(m.col, v)), ord |-> FALSE, err |-> "" ] >>, <<>>, ms)
  \o << LET n == RVal(x, 90) IN
        [ steps |-> << [ a |-> "search", key |-> Word(n) ] >>, ord |-> FALSE, err |-> "",
          rows |-> IF d.doc = "" THEN [ r \in 1..NRow |-> r ] ELSE <<DocRow(d.doc, n)>> ] >>
Refused(a, k) == [ steps |-> << [ a |-> a, key |-> k, desc |-> FALSE, lit |-> Lit("int", 7) ] >>, rows |-> <<>>, ord |-> FALSE, err |-> "unknown" ]
Missing(k) == [ steps |-> << [ a |-> "nomethod", key |-> k ] >>, rows |-> <<>>, ord |-> FALSE, err |-> "" ]
(* two methods, one method and a sort key *)
Combos(d, cfg, x) ==
  LET ms == TLCEval(SelectSeq(MethodsOf(d), LAMBDA m : Family[m.col.b] \notin Unconverted)) IN
  IF ms = <<>> THEN <<>> ELSE
  LET m1 == Pick(x, 1, ms) m2 == Pick(x, 2, ms) v1 == RVal(x, 3) v2 == IF Chance(x, 9, 50) THEN At(m2.col, RowOf(m1.col, v1)) ELSE RVal(x, 4)
      how == Pick(x, 5, <<"or", "and", "nestor", "nestand">>)
      w2 == IF v2 = 0 THEN 1 ELSE v2
      s1 == RowsAt(m1.col, v1) s2 == RowsAt(m2.col, w2)
  IN << [ steps |-> << [ a |-> how, key |-> m1.name, lit |-> Lit(Family[m1.col.b], v1), key2 |-> m2.name, lit2 |-> Lit(Family[m2.col.b], w2) ] >>,
          rows |-> Sorted(IF how \in {"or", "nestor"} THEN s1 \union s2 ELSE s1 \intersect s2), ord |-> FALSE, err |-> "" ] >>

PLeaf(name, b, go) == [ k |-> "leaf", name |-> name, b |-> b, json |-> name, om |-> FALSE, key |-> "", fck |-> NoFck, opts |-> <<>>, go |-> go,
                        kids |-> <<>>, pfx |-> "", mode |-> "" ]
PDesc(go, b) == [ pack |-> 1, fields |-> << PLeaf("Alpha", "k", "int"), PLeaf("Beta", b, go) >>, v2 |-> FALSE, ctor |-> "embed", alias |-> FALSE, doc |-> "",
                  docq |-> FALSE, rec |-> "own", rtype |-> "ptr", blank |-> TRUE, first |-> FALSE, probe |-> "typed filter method of a " \o go \o " field" ]
Probes == << PDesc("ints", "a"), PDesc("int64s", "a"), PDesc("jmap", "j"), PDesc("jstruct", "j"), PDesc("jany", "j") >>

VARIABLES i, d, todo, obs
vars == <<i, d, todo, obs>>
Cfg == SetTab[d.pack]
Emit(t) == PrintT("TRACE " \o ToJson([ d |-> i ] @@ t))
Init == /\ obs = <<>>
        /\ \/ i \in 1..ND * NP /\ d = Desc(i) /\ todo = "singles"
           \/ i \in ND * NP + 1..ND * NP + Len(Probes) /\ d = Probes[i - ND * NP] /\ todo = "probe"
Probe == /\ todo = "probe"
         /\ LET m == MethodsOf(d)[2] IN
            Emit([ steps |-> << [ a |-> "call", go |-> m.go, key |-> m.name, lit |-> Lit(Family[m.col.b], 7) ] >>, rows |-> Sorted(RowsAt(m.col, 7)), ord |-> FALSE, err |-> "" ])
         /\ todo' = "done" /\ UNCHANGED <<i, d, obs>>
Single == /\ todo = "singles"
          /\ LET s == TLCEval(Singles(d, Cfg, Mix(i, Seed + 17))) IN
             /\ \A q \in 1..Len(s) : Emit(s[q])
             /\ \A k \in Decoys(d, Cfg) : Emit(Refused("sort", k)) /\ Emit(Refused("fql", k))
             /\ LET r == Refused("sort", "-") IN Emit([ r EXCEPT !.steps[1].desc = TRUE ])          \* "-" says that there is no key
             /\ \A k \in Absent(d) : Emit(Missing(k))
             /\ obs' = [ q \in 1..Len(s) |-> [ err |-> s[q].err, n |-> Len(s[q].rows), a |-> s[q].steps[1].a ] ]
          /\ todo' = "combos" /\ UNCHANGED <<i, d>>
Combo == /\ todo = "combos"
         /\ \A c \in 1..NC : LET s == TLCEval(Combos(d, Cfg, Mix(i * 7 + c, Seed + 31))) IN \A q \in 1..Len(s) : Emit(s[q])
         /\ todo' = "done" /\ UNCHANGED <<i, d, obs>>
Spec == Init /\ [][Single \/ Combo \/ Probe]_vars

(* a key means one column, an equality never picks two rows, an order lists them all *)
Sane == \A q \in 1..Len(obs) : /\ obs[q].a \in {"fql", "call"} => obs[q].n <= 1
                               /\ (obs[q].a = "sort" /\ obs[q].err = "") => obs[q].n = NRow
Apart == todo = "singles" => LET ks == TLCEval(Keys(d, Cfg)) IN \A a, b \in 1..Len(ks) : a # b => ks[a].key # ks[b].key
NoLeak == todo = "singles" => LET ks == TLCEval(Keys(d, Cfg)) IN \A a \in 1..Len(ks) : InTable(ks[a].col)
ASSUME \A p \in 1..NP : PrintT("SET " \o ToJson([ p |-> p, s |-> Settings(p) ]))
ASSUME \A q \in 1..Len(Probes) : PrintT("DESC " \o ToJson([ i |-> ND * NP + q, d |-> Probes[q] ]))
ASSUME \A q \in 1..ND * NP : PrintT("DESC " \o ToJson([ i |-> q, d |-> Desc(q) ]))
ASSUME \A a, b \in { [ p |-> Pfxs[q], b |-> Bases[w] ] : q \in 1..7, w \in 1..7 } : a # b => ColNum(a) # ColNum(b)
=============================================================================
