-------------------------------- MODULE Legal --------------------------------
(* Which descriptions are legal (C12). A description is a kind of query, the    *)
(* relation it is about, a record type and a sequence of clauses, each with     *)
(* its references, operators and tags as written, right or wrong. The clauses   *)
(* are taken one at a time, in the order of the struct's fields; a step says    *)
(* what a clause adds to what has been said and whether it may stand.           *)
(* "open" marks what the tool may take or leave: taken, it must work.           *)
EXTENDS Choices, Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS N, From0, Seed, Mode      \* descriptions From0+1..From0+N; Mode: "pairs" of clauses or "mix"

(* ---------------------------------------------------------- the database -- *)
\* lt: the main relation; lu: another one
Cat == [ lt |-> [ id |-> "int", name |-> "text", n |-> "int", b |-> "bool", d |-> "int", e |-> "text", f |-> "bool", arr |-> "int[]", tsv |-> "tsv" ],
         lu |-> [ uid |-> "int", id |-> "int", name |-> "text", flag |-> "bool", arr |-> "int[]" ] ]
Solid == [ lt |-> {"id", "name", "d", "b", "tsv"}, lu |-> {"uid", "flag"} ]     \* NOT NULL
HasDef == {"b", "d", "e", "tsv"}
Uniques == { {"id"}, {"name"}, {"n"}, {"d", "e"} }       \* unique indexes by columns
UniqueIdx == {"lt_pkey", "lt_name_key", "lt_n_idx", "lt_de_idx", "lt_low_idx", "lt_part_idx"}
OtherIdx == {"lt_b_idx"}
UniqueCons == {"lt_pkey", "lt_name_key"}
OtherCons == {"lt_check"}

(* --------------------------------------------------------------- tokens -- *)
(* a reference to a column: written, and what is wrong with it as written *)
R(q, c) == [ q |-> q, c |-> c, bad |-> FALSE ]
BadR(s) == [ q |-> "", c |-> s, bad |-> TRUE ]
BadRefs == << BadR("1d"), BadR("a.b.c"), BadR("true"), BadR("n-m"), BadR("current_user") >>
\* qualifiers: "" none, "main" the relation's, "j" the first joined relation's, "zz" undeclared
Quals(s) == {"", "main"} \cup s.quals
RelOf(s, q) == IF q \in {"", "main"} THEN "lt" ELSE "lu"
RefBad(s, r) == r.bad \/ r.q \notin Quals(s)
Known(s, r) == ~RefBad(s, r) /\ r.c \in DOMAIN Cat[RelOf(s, r.q)]
TypeOfRef(s, r) == Cat[RelOf(s, r.q)][r.c]
IsNotNull(s, r) == r.c \in Solid[RelOf(s, r.q)]

Unary == {"istrue", "nottrue", "isfalse", "notfalse", "isunknown", "notunknown", "isnull", "notnull"}
ListOps == {"isin", "notin"}
Binary == {"=", "<>", "!=", "<", ">", "<=", ">=", "isdistinct", "notdistinct"}
TextOnly == {"islike", "notlike", "isilike", "~", "!~*", "issimilar"}
Quantifiable == {"=", "<>", "!=", "<", ">", "<=", ">=", "islike", "notlike", "isilike", "~", "!~*"}
Garbage == {"foo", "is", "not", "isnul", "==", "isin any", "like", "isbetween", "notbetweensym"}
OpType(op, ty) == CASE op \in TextOnly -> ty = "text" [] OTHER -> TRUE

(* Go types of condition fields: the column type one is for *)
GoFor == [ int |-> {"int", "*int", "int64"}, text |-> {"string", "*string"}, bool |-> {"bool", "*bool"} ]
GoList == [ int |-> {"[]int", "[]int64"}, text |-> {"[]string"}, bool |-> {"[]bool"} ]
Scalars == {"int", "text", "bool"}
\* text is also passed for the values of other types
FieldTyV(go, ty) == IF go \in GoFor[ty] THEN "accept" ELSE IF go \in GoFor["text"] THEN "open" ELSE "refuse"
IsList(go) == go \in {"[]int", "[]int64", "[]string", "[]bool", "[]chan int"}
Hopeless == {"chan int", "func()", "complex128", "error", "fmt.Stringer", "[]chan int", "struct{ X int }", "map[int]int"}

V(l) == IF "refuse" \in l THEN "refuse" ELSE IF "open" \in l THEN "open" ELSE "accept"
No(c) == IF c THEN "refuse" ELSE "accept"
Maybe(c) == IF c THEN "open" ELSE "accept"

(* ----------------------------------------------------------- conditions -- *)
\* bool: the connective as written
BoolV(i, first) == IF i.bool \in {"", "and", "or", "OR"} THEN "accept" ELSE IF first THEN "open" ELSE "refuse"
FieldV(s, i) ==
  IF ~Known(s, i.ref) THEN "refuse"
  ELSE LET ty == TypeOfRef(s, i.ref)
           op == IF i.op = "" THEN "=" ELSE i.op IN
  V({ No(op \in Unary \cup Garbage), No(i.tail # ""), No(i.go \in Hopeless),
      No(i.qua # "" /\ (op \notin Quantifiable \/ ~IsList(i.go))),
      No(op \in ListOps /\ ~IsList(i.go)),
      \* by itself a list is for an array column
      No(i.qua = "" /\ op \notin ListOps /\ IsList(i.go) /\ ty \in Scalars),
      IF ty \in Scalars /\ ~IsList(i.go) THEN FieldTyV(i.go, ty) ELSE "accept",
      No(ty \in Scalars /\ IsList(i.go) /\ i.go \notin GoList[ty]),
      No(~OpType(op, ty)),
      IF i.fn = "" THEN "accept" ELSE IF i.fn = "nosuchfn" THEN "refuse" ELSE IF i.fn \in {"lower", "upper"} /\ ty = "text" /\ i.go \in GoFor["text"] /\ i.qua = "" THEN "accept" ELSE IF i.fn \in {"lower", "upper"} /\ ty \in {"int", "bool"} THEN "refuse" ELSE "open",
      Maybe(ty \notin Scalars) })
ColV(s, i, joined) ==
  IF ~Known(s, i.ref) THEN "refuse"
  ELSE LET ty == TypeOfRef(s, i.ref) IN
  IF i.rhs.k = "none"
  THEN LET op == IF i.op = "" THEN "istrue" ELSE i.op IN
       V({ No(op \notin Unary), No(i.qua # ""), No(op \in Unary \ {"isnull", "notnull"} /\ ty # "bool"),
           \* whether a column that can hold no NULL is NULL is a question only for one that may be missing
           IF op \in {"isnull", "notnull"} /\ IsNotNull(s, i.ref) THEN (IF RelOf(s, i.ref.q) = "lt" \/ joined THEN "refuse" ELSE "accept") ELSE "accept" })
  ELSE IF i.op \in Unary \cup Garbage \/ i.op = "" THEN "refuse"
  ELSE IF i.rhs.k = "ref" THEN
    \* what is not a column may still be an expression
    IF i.rhs.ref.bad /\ i.rhs.ref.c \in {"true", "current_user"} THEN "open"
    ELSE IF ~Known(s, i.rhs.ref) THEN "refuse"
    ELSE LET rt == TypeOfRef(s, i.rhs.ref) IN
    IF i.qua # "" \/ i.op \in ListOps
    THEN V({ No(i.qua # "" /\ i.op \notin Quantifiable), No(rt # "int[]"), No(rt = "int[]" /\ ty # "int"), No(~OpType(i.op, ty)), Maybe(i.op \in ListOps) })
    ELSE V({ No(rt # ty), No(~OpType(i.op, ty)), Maybe(ty \notin Scalars) })
  ELSE V({ No(i.rhs.bad), No(i.qua # "" \/ i.op \in ListOps), IF i.rhs.bad THEN "refuse" ELSE No(i.rhs.ty # ty), No(~OpType(i.op, ty)) })
BoundV(s, ref, b) ==
  IF b.k = "field" THEN (IF ~Known(s, ref) THEN "refuse" ELSE LET ty == TypeOfRef(s, ref) IN IF ty \in Scalars THEN FieldTyV(b.go, ty) ELSE "open")
  ELSE IF ~Known(s, b.ref) \/ ~Known(s, ref) THEN "refuse"
  ELSE IF TypeOfRef(s, ref) \in Scalars THEN No(TypeOfRef(s, ref) # TypeOfRef(s, b.ref)) ELSE "open"
BetweenV(s, i) ==
  V({ No(~Known(s, i.ref)), No(i.shape # "ok"),                \* shape: ok, one, three, twox, untagged, int
      IF i.shape = "ok" THEN BoundV(s, i.ref, i.lo) ELSE "refuse", IF i.shape = "ok" THEN BoundV(s, i.ref, i.hi) ELSE "refuse" })
Counts(i) == i.k \notin {"plain", "blank", "alien"}
RECURSIVE ItemsV(_, _)
ItemV(s, i, first) ==
  CASE i.k = "field" -> V({FieldV(s, i), BoolV(i, first)})
    [] i.k = "col" -> V({ColV(s, i, FALSE), BoolV(i, first)})
    [] i.k = "btw" -> V({BetweenV(s, i), BoolV(i, first)})
    [] i.k = "nest" -> V({ IF i.shape = "ok" THEN ItemsV(s, i.items) ELSE "refuse", BoolV(i, first), No(~\E j \in 1..Len(i.items) : Counts(i.items[j])) })
    [] i.k = "alien" -> "refuse"              \* a directive that has no place among conditions
    [] i.k = "blank" -> "refuse"              \* a blank field of another type, with a tag
    [] i.k = "plain" -> "accept"              \* a field without a tag
ItemsV(s, items) == V({ ItemV(s, items[j], \A h \in 1..(j - 1) : ~Counts(items[h])) : j \in 1..Len(items) })
RECURSIVE AnyCond(_)
AnyCond(items) == \E j \in 1..Len(items) : Counts(items[j]) /\ (items[j].k = "nest" => AnyCond(items[j].items))

(* ---------------------------------------------------------------- kinds -- *)
IsSel(k) == k \in {"select", "count", "exists", "notexists"}
IsWrite(k) == k \in {"insert", "update"}
Changes(k) == k \in {"insert", "update", "delete"}
IsSlice(d) == d.wrap \in {"slice", "ptrslice", "array"}
HasRec(d) == d.kind \notin {"count", "exists", "notexists"} /\ d.wrap # "directive"
RecCols(d) == IF HasRec(d) THEN { d.rec[j].ref.c : j \in 1..Len(d.rec) } ELSE {}

(* lists of columns in the tags of directives *)
ListBad(l) == l = <<>> \/ \E j \in 1..Len(l) : l[j].bad \/ l[j].q = "zz"
Star == << [ q |-> "", c |-> "*", bad |-> FALSE ] >>
MainRefs(l) == \A j \in 1..Len(l) : l[j].q \in {"", "main"}
In(l, S) == \A j \in 1..Len(l) : l[j].c \in S
RefsOk(s, l) == \A j \in 1..Len(l) : ~RefBad(s, l[j])
Dup(l) == \E a, b \in 1..Len(l) : a < b /\ l[a].c = l[b].c

(* ---------------------------------------------------------- record types -- *)
\* a field: ref, opt (options as written), go (its type)
RefFits(f) == f.ref.c \in DOMAIN Cat.lt
FieldFits(f) == LET ty == Cat.lt[f.ref.c] IN
                IF f.go \in Hopeless THEN FALSE
                ELSE CASE ty \in Scalars -> FieldTyV(f.go, ty) # "refuse" [] ty = "int[]" -> f.go \in {"[]int", "string", "*string"} [] ty = "tsv" -> f.go \in {"[]string", "string", "*string"}
RecFitV(f) == LET ty == Cat.lt[f.ref.c] IN
             IF f.go \notin Hopeless /\ ty \in Scalars THEN FieldTyV(f.go, ty) ELSE IF FieldFits(f) THEN Maybe(f.go \in GoFor["text"]) ELSE "refuse"
IntSeq == <<"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune">>
NotInt == <<"string", "*int", "float64", "uintptr", "bool", "[]int", "interface{}", "complex64", "time.Duration">>
InSeq(e, q) == \E j \in 1..Len(q) : q[j] = e
GoodOpts == {"", "ro", "wo", "default", "nn", "coalesce"}
NoWrite(o) == o = "ro"
NoRead(o) == o = "wo"
RecFieldV(d, s, f, use) ==
  V({ No(f.ref.bad), No(f.ref.q = "zz" \/ f.ref.q = "j"),
      \* an empty or unknown option
      Maybe(f.opt \notin GoodOpts),
      IF f.ref.bad THEN "refuse"
      ELSE IF ~RefFits(f) THEN (IF use = "read" THEN (IF s.opt = Star \/ \E j \in 1..Len(s.opt) : s.opt[j].c = f.ref.c THEN "accept" ELSE "refuse")
                                ELSE IF NoWrite(f.opt) /\ d.kind \in {"insert", "update"} THEN "accept" ELSE "refuse")
      ELSE V({ RecFitV(f), No(f.opt = "default" /\ use = "write" /\ f.ref.c \notin HasDef) }) })
RecWrites(d) == { j \in 1..Len(d.rec) : ~NoWrite(d.rec[j].opt) /\ RefFits(d.rec[j]) }
RecReads(d) == { j \in 1..Len(d.rec) : ~NoRead(d.rec[j].opt) /\ RefFits(d.rec[j]) }
RecV(d, s) ==
  IF ~HasRec(d) THEN "accept"
  ELSE CASE d.kind = "select" -> V({ RecFieldV(d, s, d.rec[j], "read") : j \in 1..Len(d.rec) } \cup { No(RecReads(d) = {}) })
         [] IsWrite(d.kind) -> V({ RecFieldV(d, s, d.rec[j], "write") : j \in 1..Len(d.rec) }
                                 \cup { No(RecWrites(d) = {} /\ ~s.force), No(\E a, b \in RecWrites(d) : a < b /\ d.rec[a].ref.c = d.rec[b].ref.c) })
         [] OTHER -> V({ No(d.rec[j].ref.bad \/ d.rec[j].ref.q \in {"zz", "j"}) : j \in 1..Len(d.rec) } \cup {"accept"})
HasKey(d) == \E j \in 1..Len(d.rec) : d.rec[j].ref.c = "id"
(* what an update sets: the fields of the key too *)
Sets(d, s) == RecWrites(d)

(* --------------------------------------------------------------- clauses -- *)
Conflicts(s, S) == s.seen \cap S # {}
RelTagV(t) == No(t \in {"", "1t", "lt:", "a.b.lt", "lt:1a", "nosuch", "public.nosuch:m", "lt m", "other.lt"})
WrapV(d) ==
  CASE d.kind = "count" /\ d.wrap \in {"ptr", "val"} /\ ~InSeq(d.cnt, IntSeq) -> "refuse"
    [] d.kind = "count" /\ d.wrap = "int" -> "accept"
    [] d.wrap \in {"ptr", "val", "anon"} -> "accept"
    [] d.wrap \in {"slice", "ptrslice"} -> "accept"
    [] d.wrap = "array" -> "open"
    [] d.wrap \in {"func", "iface"} -> (IF d.kind = "select" THEN "accept" ELSE IF IsWrite(d.kind) THEN "refuse" ELSE "open")
    [] d.wrap = "directive" -> IF d.kind = "filter" THEN "open" ELSE No(d.kind # "delete")
    [] OTHER -> "refuse"     \* int, map, ptranon, sliceanon, func without an error, interface of two methods, chan, ptrptr
ListClauseV(s, d, l, allowStar) == IF l = Star THEN No(~allowStar) ELSE No(ListBad(l) \/ ~RefsOk(s, l))
OrderV(s, items) == IF items = <<>> THEN "refuse"
                    ELSE V({ V({ No(~Known(s, items[j].ref)), No(items[j].nulls \notin {"", "nullsfirst", "nullslast"}) }) : j \in 1..Len(items) })
\* a column without a qualifier on the left side is one of the relation joined
CondsV(s, i, conds) == V({"accept"} \cup { V({ ColV(s, IF conds[j].ref.q = "" /\ i.as # "" THEN [conds[j] EXCEPT !.ref.q = i.as] ELSE conds[j], TRUE), No(conds[j].ref.q = "main") }) : j \in 1..Len(conds) })
(* one directive of a Join, From or Using struct; m is "Join", "From" or "Using" *)
JoinItem(s, m, i) ==
  IF i.k \in {"alien", "named"} THEN [ s |-> s, v |-> "refuse" ]
  ELSE LET bad == i.tag # "lu" \/ i.as \in s.quals \/ i.as = "main"
           s1 == IF bad \/ i.as = "" THEN s ELSE [ s EXCEPT !.quals = @ \cup {i.as} ]
       IN IF i.k = "rel" THEN [ s |-> [ s1 EXCEPT !.jrel = TRUE ], v |-> V({ No(bad), No(m = "Join"), No(s.jrel), Maybe(i.as = "") }) ]
          ELSE [ s |-> s1,
                 v |-> IF bad THEN "refuse"
                       ELSE V({ CondsV(s1, i, i.conds),
                                IF i.dir = "CrossJoin" THEN No(i.conds # <<>>) ELSE No(i.conds = <<>>),
                                \* the left side of a condition is a column of the relation joined
                                No(\E j \in 1..Len(i.conds) : i.conds[j].ref.q \notin {"", i.as}),
                                \* the target of an update or delete is no part of the joins
                                IF m = "Join" THEN "accept" ELSE No(\E j \in 1..Len(i.conds) : i.conds[j].rhs.k = "ref" /\ i.conds[j].rhs.ref.q \in {"", "main"}),
                                Maybe(i.dir = "FullJoin" \/ i.as = "") }) ]
RECURSIVE JoinItems(_, _, _)
JoinItems(s, m, items) ==
  IF items = <<>> THEN [ s |-> s, v |-> "accept" ]
  ELSE LET a == JoinItem(s, m, Head(items)) b == JoinItems(a.s, m, Tail(items)) IN [ s |-> b.s, v |-> V({a.v, b.v}) ]

ConflictV(s, d, c) ==
  LET targets == SelectSeq(c.items, LAMBDA i : i.k \in {"column", "index", "constraint"})
      acts == SelectSeq(c.items, LAMBDA i : i.k \in {"ignore", "update"})
      One(i) == CASE i.k = "column" -> IF ListBad(i.list) \/ ~MainRefs(i.list) THEN "refuse" ELSE No({ i.list[j].c : j \in 1..Len(i.list) } \notin Uniques \/ Dup(i.list))
                  [] i.k = "index" -> No(i.name \notin UniqueIdx)
                  [] i.k = "constraint" -> No(i.name \notin UniqueCons)
                  [] i.k = "ignore" -> "accept"
                  [] i.k = "update" -> IF i.list = Star THEN "accept" ELSE V({ No(ListBad(i.list) \/ ~MainRefs(i.list) \/ ~In(i.list, DOMAIN Cat.lt)), Maybe(Dup(i.list)) })
                  [] OTHER -> "refuse"
  IN V({ One(c.items[j]) : j \in 1..Len(c.items) } \cup
       { No(Len(targets) > 1), No(Len(acts) # 1), No(Len(acts) = 1 /\ acts[1].k = "update" /\ targets = <<>>) })

See(s, c) == [ s EXCEPT !.seen = @ \cup {c} ]
(* what a clause adds and whether it may stand *)
Take(d, s, c) ==
  LET k == d.kind
      sliceup == k = "update" /\ IsSlice(d)
      again == c.cl \in s.seen
      R1(ss, v) == [ s |-> ss, v |-> v ]
  IN
  IF k = "filter" THEN
    CASE c.cl = "constructor" -> R1(See(s, "constructor"), No(again))
      [] c.cl = "textsearch" -> R1(See(s, "textsearch"), V({ No(again), No(c.ref.bad \/ c.ref.q \notin {"", "main"}), IF c.ref.c \in DOMAIN Cat.lt THEN No(c.ref.c # "tsv") ELSE "refuse",
                                                            Maybe(c.ref.q = "main" /\ "constructor" \notin {"x"}) }))
      [] c.cl = "rel2" -> R1(s, "refuse")
      [] c.cl \in {"all", "orderby", "optional", "return", "default", "force", "override", "alien", "named", "reldir"} -> R1(s, "refuse")
      [] c.cl \in {"limit", "offset"} -> R1(s, IF c.form = "dir" THEN "refuse" ELSE "open")
      [] OTHER -> R1(s, "open")
  ELSE
  CASE c.cl = "where" -> R1([See(s, "where") EXCEPT !.qual = TRUE, !.empty = ~AnyCond(c.items)],
         V({ No(k = "insert" \/ sliceup), No(Conflicts(s, {"where", "all", "filter"})), IF c.form = "struct" THEN ItemsV(s, c.items) ELSE "refuse", Maybe(~AnyCond(c.items)) }))
    [] c.cl = "filter" -> R1([See(s, "filter") EXCEPT !.qual = TRUE], V({ No(k = "insert" \/ sliceup), No(Conflicts(s, {"where", "all", "filter"})) }))
    [] c.cl = "all" -> R1([See(s, "all") EXCEPT !.qual = TRUE], V({ No(k \notin {"update", "delete"} \/ sliceup), No(Conflicts(s, {"where", "all", "filter"})) }))
    [] c.cl = "join" ->
         LET m == c.name
             fits == (m = "Join" /\ IsSel(k)) \/ (m = "From" /\ k = "update") \/ (m = "Using" /\ k = "delete")
             j == IF c.form = "struct" THEN JoinItems([s EXCEPT !.jrel = FALSE], m, c.items) ELSE [ s |-> s, v |-> "refuse" ]
         IN R1(See(j.s, "join"), V({ No(~fits), No(again), j.v, No(m # "Join" /\ c.form = "struct" /\ ~j.s.jrel), Maybe(c.items = <<>>) }))
    [] c.cl = "orderby" -> R1(See(s, "orderby"), V({ No(~IsSel(k) \/ k = "count"), No(again), OrderV(s, c.items) }))
    [] c.cl \in {"limit", "offset"} -> R1(See(s, c.cl), V({ No(~IsSel(k) \/ k = "count"), No(again),
         CASE c.form = "dir" -> No(c.val \notin {"5", "0", "300"})
           [] InSeq(c.form, IntSeq) -> No(c.val \notin {"", "5", "0", "300"} \/ (c.val = "300" /\ c.form \in {"int8", "uint8", "byte"}))
           [] OTHER -> "refuse" }))
    [] c.cl = "optional" -> R1([See(s, "optional") EXCEPT !.opt = c.list],
         V({ No(~IsSel(k)), No(again), ListClauseV(s, d, c.list, TRUE), IF c.list = Star THEN Maybe(k # "select") ELSE No(~In(c.list, RecCols(d))), Maybe(c.list # Star /\ ~MainRefs(c.list)) }))
    [] c.cl = "return" -> R1(See(s, "return"), V({ No(~Changes(k)), No(Conflicts(s, {"return", "result", "rowsaffected"})), No(~HasRec(d) \/ d.rec = <<>>),
         ListClauseV(s, d, c.list, TRUE),
         IF c.list = Star THEN V({ No(\A j \in 1..Len(d.rec) : NoRead(d.rec[j].opt) \/ d.rec[j].ref.c \notin DOMAIN Cat.lt), No(\E j \in 1..Len(d.rec) : RefFits(d.rec[j]) /\ ~FieldFits(d.rec[j])) })
         ELSE V({ No(~In(c.list, RecCols(d)) \/ ~In(c.list, DOMAIN Cat.lt) \/ ~MainRefs(c.list)), Maybe(\E j \in 1..Len(d.rec) : NoRead(d.rec[j].opt)),
                  No(\E j \in 1..Len(d.rec) : RefFits(d.rec[j]) /\ ~FieldFits(d.rec[j]) /\ ~In(<<d.rec[j].ref>>, DOMAIN Cat.lt \ { c.list[h].c : h \in 1..Len(c.list) })) }) }))
    [] c.cl = "result" -> R1(See(s, "result"), V({ No(~Changes(k)), No(Conflicts(s, {"return", "result", "rowsaffected"})), No(c.ty \notin {"Res", "*Res", "[]*Res", "[]Res", "func(*Res) error"}) }))
    [] c.cl = "rowsaffected" -> R1(See(s, "rowsaffected"), V({ No(~Changes(k)), No(Conflicts(s, {"return", "result", "rowsaffected"})), No(~InSeq(c.ty, IntSeq)) }))
    [] c.cl = "default" -> R1(See(s, "default"), V({ No(~IsWrite(k)), No(again), ListClauseV(s, d, c.list, TRUE), IF c.list = Star THEN "accept" ELSE No(~In(c.list, HasDef) \/ ~MainRefs(c.list)) }))
    [] c.cl = "force" -> R1([See(s, "force") EXCEPT !.force = TRUE], V({ No(~IsWrite(k)), No(again), ListClauseV(s, d, c.list, TRUE),
         IF c.list = Star THEN "open" ELSE V({ No(~In(c.list, RecCols(d)) \/ ~In(c.list, DOMAIN Cat.lt)), Maybe(~MainRefs(c.list)), Maybe(\E j \in 1..Len(d.rec) : d.rec[j].opt \in {"ro", "wo"}) }) }))
    [] c.cl = "override" -> R1(See(s, "override"), V({ No(k # "insert"), No(again), No(c.val \notin {"system", "user", "USER"}) }))
    [] c.cl = "onconflict" -> R1(See(s, "onconflict"), V({ No(k # "insert"), No(again), IF c.form = "struct" THEN ConflictV(s, d, c) ELSE "refuse" }))
    [] c.cl = "handler" -> R1(See(s, "handler"), No(again))
    [] c.cl = "context" -> R1(See(s, "context"), No(again))
    [] c.cl \in {"alien", "named", "reldir", "rel2", "textsearch"} -> R1(s, "refuse")   \* named: a directive in a field with a name
    [] c.cl \in {"plain", "constructor"} -> R1(s, IF c.cl = "plain" THEN "accept" ELSE "open")

(* the description as a whole *)
Parts(d, s) ==
  [ tag |-> RelTagV(d.tag), wrap |-> WrapV(d),
    record |-> IF WrapV(d) = "refuse" THEN "refuse" ELSE RecV(d, s),
    filter |-> IF d.kind = "filter" THEN V({ No("constructor" \notin s.seen), No(d.wrap \in {"func", "iface"}),
                                             No(HasRec(d) /\ \E j \in 1..Len(d.rec) : RefFits(d.rec[j]) /\ ~FieldFits(d.rec[j])) }) ELSE "accept",
    rows |-> IF d.kind = "delete" THEN No(~s.qual \/ s.empty) ELSE IF d.kind = "update" THEN V({ No(s.empty), No(~s.qual /\ ~HasKey(d)) }) ELSE "accept",
    sets |-> IF d.kind = "update" /\ Sets(d, s) = {} THEN (IF s.force THEN "open" ELSE "refuse") ELSE "accept",
    ordered |-> IF d.kind \in {"select", "exists", "notexists"} /\ "filter" \in s.seen THEN No(s.seen \cap {"orderby", "limit", "offset"} # {}) ELSE "accept",
    \* sequences as rows of a single-row result
    many |-> Maybe(d.kind = "insert" /\ IsSlice(d) /\ s.seen \cap {"return", "result"} # {}),
    exists |-> Maybe(d.kind = "exists" /\ s.seen \cap {"orderby"} # {}) ]

(* ------------------------------------------------- numbered descriptions -- *)
F(x, k, pct, good, bad) == IF Chance(x, k, pct) THEN Pick(x, k + 1, bad) ELSE Pick(x, k + 1, good)
\* pct: how often a choice goes wrong, in percent
MainRefsOf == << R("", "id"), R("main", "id"), R("", "name"), R("main", "name"), R("main", "n"), R("", "b"), R("main", "d"), R("", "e"), R("main", "f") >>
JoinRefsOf == << R("j", "uid"), R("j", "name"), R("j", "flag"), R("j", "id") >>
OddRefs == BadRefs \o << R("", "nosuch"), R("main", "nosuch"), R("zz", "id"), R("j", "nosuch"), R("j", "id"), R("main", "uid") >>
GoodRefs(joined) == IF joined THEN MainRefsOf \o JoinRefsOf ELSE MainRefsOf
TyOf(r) == IF r.bad \/ r.q = "zz" THEN "int" ELSE LET t == IF r.q = "j" THEN "lu" ELSE "lt" IN IF r.c \in DOMAIN Cat[t] THEN Cat[t][r.c] ELSE "int"
Scal(ty) == IF ty \in Scalars THEN ty ELSE "int"
GoSeq(ty) == CASE Scal(ty) = "int" -> <<"int", "*int", "int64">> [] Scal(ty) = "text" -> <<"string", "*string">> [] OTHER -> <<"bool", "*bool">>
ListSeq(ty) == CASE Scal(ty) = "int" -> <<"[]int", "[]int64">> [] Scal(ty) = "text" -> <<"[]string">> [] OTHER -> <<"[]bool">>
AnyGo == <<"int", "string", "bool", "[]int", "[]string", "chan int", "func()", "complex128", "error", "fmt.Stringer", "[]chan int", "struct{ X int }", "map[int]int">>
NoRhs == [ k |-> "none" ]
Lits == << [ k |-> "lit", text |-> "1", ty |-> "int", bad |-> FALSE ], [ k |-> "lit", text |-> "'x'::text", ty |-> "text", bad |-> FALSE ], [ k |-> "lit", text |-> "true", ty |-> "bool", bad |-> FALSE ] >>
LitFor(ty) == CASE Scal(ty) = "int" -> Lits[1] [] Scal(ty) = "text" -> Lits[2] [] OTHER -> Lits[3]
OddLits == << [ k |-> "lit", text |-> "1)", ty |-> "int", bad |-> TRUE ], [ k |-> "lit", text |-> "'x", ty |-> "text", bad |-> TRUE ], [ k |-> "lit", text |-> "no_such_fn(1)", ty |-> "int", bad |-> TRUE ] >> \o Lits
BinOps == <<"=", "<>", "<", ">=", "isdistinct", "!=">>
OpsOf(ty) == IF ty = "text" THEN BinOps \o <<"islike", "notlike", "~", "!~*">> ELSE BinOps
BoolTags == <<"", "", "or", "and", "OR">>
Ref(x, k, pct, joined) == F(x, k, pct, GoodRefs(joined), OddRefs)
SameType(r, joined) == SelectSeq(GoodRefs(joined), LAMBDA z : TyOf(z) = Scal(TyOf(r)))

FieldIt(x, pct, joined) ==
  LET r == Ref(x, 1, pct, joined)
      ty == TyOf(r)
      mode == F(x, 3, 0, <<"plain", "plain", "list", "qua", "fn">>, <<"plain">>)
      op == CASE mode = "plain" -> F(x, 5, pct, OpsOf(Scal(ty)) \o <<"">>, <<"isnull", "istrue", "foo", "is", "isnul", "==", "isin", "like", "islike", "~">>)
              [] mode = "list" -> F(x, 5, pct, <<"isin", "notin">>, <<"isin any", "not", "foo">>)
              [] mode = "qua" -> F(x, 5, pct, <<"=", "<", "<>">>, <<"isdistinct", "isin", "notdistinct">>)
              [] OTHER -> F(x, 5, pct, <<"=", "<>", "">>, <<"isnull", "foo">>)
      go == CASE mode \in {"plain", "fn"} -> F(x, 7, pct, GoSeq(ty), AnyGo)
              [] OTHER -> F(x, 7, pct, ListSeq(ty), AnyGo)
  IN [ k |-> "field", ref |-> IF mode = "fn" THEN (IF r.bad THEN r ELSE R(r.q, IF r.q = "j" THEN "name" ELSE Pick(x, 8, <<"name", "e">>))) ELSE r, op |-> op,
       qua |-> IF mode = "qua" THEN Pick(x, 9, <<"any", "all", "some">>) ELSE "",
       tail |-> IF op = "" THEN "" ELSE F(x, 10, pct \div 2, <<"">>, <<"!", "name", "5">>),
       go |-> IF mode = "fn" THEN F(x, 7, pct, <<"string", "*string">>, AnyGo) ELSE go,
       fn |-> IF mode = "fn" THEN F(x, 12, pct, <<"lower", "upper">>, <<"nosuchfn", "abs">>) ELSE "", bool |-> F(x, 14, pct, BoolTags, <<"xor", "and or">>) ]
ColIt(x, pct, joined) ==
  LET mode == Pick(x, 1, <<"bin", "bin", "null", "bool", "lit", "lit", "bare", "qua">>)
      r0 == Ref(x, 2, pct, joined)
      r == CASE mode \in {"bool", "bare"} /\ ~Chance(x, 4, pct) -> (IF joined /\ Chance(x, 5, 30) THEN R("j", "flag") ELSE Pick(x, 5, << R("", "b"), R("main", "f") >>))
             [] mode = "null" /\ ~Chance(x, 4, pct) -> (IF joined /\ Chance(x, 5, 30) THEN R("j", "uid") ELSE Pick(x, 5, << R("", "n"), R("main", "e"), R("main", "n") >>))
             [] mode = "qua" /\ ~Chance(x, 4, pct) -> Pick(x, 5, << R("", "id"), R("main", "n") >>)
             [] OTHER -> r0
      op == CASE mode = "bin" -> F(x, 6, pct, OpsOf(Scal(TyOf(r))), <<"isnull", "istrue", "isin", "foo", "", "like", "~", "isbetween", "notbetweensym">>)
              [] mode = "lit" -> F(x, 6, pct, OpsOf(Scal(TyOf(r))), <<"isnull", "istrue", "isin", "foo", "">>)
              [] mode = "null" -> F(x, 6, pct, <<"isnull", "notnull">>, <<"isnul", "null", "=">>)
              [] mode = "bool" -> F(x, 6, pct, <<"istrue", "notfalse", "isunknown">>, <<"true", "foo", "=", "isin">>)
              [] mode = "qua" -> F(x, 6, pct, <<"=", "<">>, <<"isdistinct", "isin">>)
              [] OTHER -> ""
      rhs == CASE mode = "bin" -> [ k |-> "ref", ref |-> IF Chance(x, 8, pct) THEN Pick(x, 9, OddRefs \o MainRefsOf) ELSE Pick(x, 9, SameType(r, joined)) ]
               [] mode = "lit" -> IF Chance(x, 8, pct) THEN Pick(x, 9, OddLits) ELSE LitFor(TyOf(r))
               [] mode = "qua" -> [ k |-> "ref", ref |-> F(x, 8, pct, << R("", "arr"), R("main", "arr") >>, << R("", "id"), R("zz", "arr"), R("main", "name") >>) ]
               [] OTHER -> IF Chance(x, 8, pct \div 2) THEN LitFor(TyOf(r)) ELSE NoRhs
  IN [ k |-> "col", ref |-> r, op |-> op, rhs |-> rhs, qua |-> IF mode = "qua" THEN Pick(x, 10, <<"any", "all", "some">>) ELSE "", bool |-> F(x, 14, pct, BoolTags, <<"xor">>) ]
Bnd(x, k, pct, r, joined) == IF Chance(x, k, 30) THEN [ k |-> "ref", ref |-> IF Chance(x, k + 1, pct) THEN Pick(x, k + 2, OddRefs \o MainRefsOf) ELSE Pick(x, k + 2, SameType(r, joined)) ]
                             ELSE [ k |-> "field", go |-> F(x, k + 3, pct, GoSeq(TyOf(r)), AnyGo) ]
BtwIt(x, pct, joined) ==
  LET r == Ref(x, 1, pct, joined) IN
  [ k |-> "btw", ref |-> r, op |-> Pick(x, 3, <<"isbetween", "notbetween", "isbetweensym", "notbetweenasym">>), shape |-> F(x, 4, pct, <<"ok">>, <<"one", "three", "twox", "untagged", "int">>),
    lo |-> Bnd(x, 20, pct, r, joined), hi |-> Bnd(x, 30, pct, r, joined), bool |-> F(x, 14, pct, BoolTags, <<"xor">>) ]
RECURSIVE GenConds(_, _, _, _)
GenCond(x, pct, joined, depth) ==
  LET k == Upto(x, 40, 99) IN
  IF k < 40 THEN FieldIt(Mix(x, 1), pct, joined)
  ELSE IF k < 70 THEN ColIt(Mix(x, 2), pct, joined)
  ELSE IF k < 82 THEN BtwIt(Mix(x, 3), pct, joined)
  ELSE IF k < 90 /\ depth > 0 THEN [ k |-> "nest", shape |-> F(x, 41, pct, <<"ok">>, <<"int">>), items |-> IF Chance(x, 43, pct) THEN <<>> ELSE GenConds(Mix(x, 44), pct, joined, depth - 1), bool |-> F(x, 45, pct, BoolTags, <<"xor">>) ]
  ELSE IF k < 93 THEN [ k |-> "plain" ]
  ELSE IF Chance(x, 46, pct * 3) THEN [ k |-> Pick(x, 47, <<"alien", "blank">>), name |-> Pick(x, 48, <<"Index", "Ignore", "Relation", "LeftJoin">>) ]
  ELSE FieldIt(Mix(x, 4), pct, joined)
GenConds(x, pct, joined, depth) == [ j \in 1..Pick(x, 50, <<1, 1, 2, 2, 3>>) |-> GenCond(Mix(x, 60 + j), pct, joined, depth) ]

ListOf(x, k, pct, good, joined) == IF Chance(x, k, 20) THEN Star
                            \* the columns of another relation under the names of the relation's own
                            ELSE IF joined /\ Chance(x, k + 9, 8) THEN << R("j", Pick(x, k + 5, <<"id", "name">>)) >> ELSE IF Chance(x, k + 1, pct) THEN Pick(x, k + 2, << <<>>, << R("", "nosuch") >>, << R("", "id"), BadR("1d") >>, << R("zz", "id") >>, << R("main", "nosuch"), R("", "id") >>, << BadR("*"), R("", "id") >>, << R("j", "name") >> >>)
                            ELSE [ j \in 1..Pick(x, k + 3, <<1, 1, 2>>) |-> LET r == Pick(x, k + 4 + j, good) IN R(Pick(x, k + 7 + j, <<"", "main">>), r) ]
JCond(x, pct, as, m) ==
  LET c == ColIt(Mix(x, 1), pct, TRUE)
      own == Pick(x, 2, <<"uid", "id", "name", "flag">>)
      ty == Cat.lu[own]
      k == Upto(x, 3, 99)
  IN IF Chance(x, 4, pct) THEN c
     ELSE IF k < 70 /\ m = "Join" THEN [ k |-> "col", ref |-> R(as, own), op |-> Pick(x, 5, <<"=", "=", "<", "isdistinct">>), qua |-> "", bool |-> "",
                           rhs |-> [ k |-> "ref", ref |-> R(IF Chance(x, 6, 50) THEN "main" ELSE "", CASE ty = "int" -> Pick(x, 7, <<"id", "n", "d">>) [] ty = "text" -> Pick(x, 7, <<"name", "e">>) [] OTHER -> "b") ] ]
     ELSE IF k < 85 THEN [ k |-> "col", ref |-> R(as, own), op |-> Pick(x, 5, <<"=", "<>">>), qua |-> "", bool |-> "", rhs |-> LitFor(ty) ]
     ELSE IF k < 92 THEN [ k |-> "col", ref |-> R(as, "flag"), op |-> Pick(x, 5, <<"", "istrue", "notfalse">>), qua |-> "", bool |-> "", rhs |-> NoRhs ]
     ELSE [ k |-> "col", ref |-> R(as, "name"), op |-> "isnull", qua |-> "", bool |-> "", rhs |-> NoRhs ]
JDir(x, pct, n, m) ==
  LET as == F(x, 1, pct, << Pick(x, 2, IF n = 1 THEN <<"j">> ELSE <<"j2">>) >>, <<"j", "main", "">>)
      dir == Pick(x, 3, <<"LeftJoin", "InnerJoin", "RightJoin", "CrossJoin", "LeftJoin", "InnerJoin">>)
  IN [ k |-> "jd", dir |-> dir, tag |-> F(x, 5, pct, <<"lu">>, <<"nosuch", "", "9", "lu x", "a.b.lu">>), as |-> as,
       conds |-> IF (dir = "CrossJoin") # Chance(x, 7, pct) THEN <<>> ELSE [ j \in 1..Pick(x, 8, <<1, 1, 2>>) |-> JCond(Mix(x, 10 + j), pct, as, m) ],
       seps |-> << Pick(x, 9, <<",", ";">>) >> ]
GenJoin(x, pct, m) ==
  LET first == IF m = "Join" THEN (IF Chance(x, 1, pct \div 2) THEN << [ k |-> "rel", tag |-> "lu", as |-> "j" ] >> ELSE << JDir(Mix(x, 2), pct, 1, m) >>)
               ELSE IF Chance(x, 1, pct) THEN <<>> ELSE << [ k |-> "rel", tag |-> F(x, 3, pct, <<"lu">>, <<"nosuch", "", "9">>), as |-> F(x, 5, pct, <<"j">>, <<"main", "">>) ] >>
      more == IF Chance(x, 7, 25) THEN << JDir(Mix(x, 8), pct, 2, m) >> ELSE <<>>
      odd == IF Chance(x, 9, pct) THEN << Pick(x, 10, << [ k |-> "alien", name |-> "Column" ], [ k |-> "rel", tag |-> "lu", as |-> "j3" ], [ k |-> "alien", name |-> "Index" ], [ k |-> "named", name |-> "LeftJoin" ], [ k |-> "named", name |-> "Relation" ] >>) >> ELSE <<>>
  IN [ cl |-> "join", name |-> m, form |-> F(x, 11, pct \div 3, <<"struct">>, <<"int">>), items |-> first \o more \o odd ]
OCItem(x, kk, pct) ==
  CASE kk = "column" -> [ k |-> "column", list |-> F(x, 1, pct, << << R("", "id") >>, << R("main", "name") >>, << R("", "d"), R("", "e") >>, << R("", "e"), R("main", "d") >>, << R("", "n") >> >>,
                                                   << <<>>, << R("", "nosuch") >>, << R("", "b") >>, << R("", "f") >>, << R("", "id"), R("", "name") >>, << R("zz", "id") >>, << R("", "id"), R("", "id") >>, << BadR("*") >> >>) ]
    [] kk = "index" -> [ k |-> "index", name |-> F(x, 1, pct, <<"lt_pkey", "lt_name_key", "lt_n_idx", "lt_de_idx", "lt_low_idx", "lt_part_idx">>, <<"lt_b_idx", "lt_defer", "lt_low2_idx", "nosuch", "", "1x", "lu_pkey", "a.b">>) ]
    [] kk = "constraint" -> [ k |-> "constraint", name |-> F(x, 1, pct, <<"lt_pkey", "lt_name_key">>, <<"lt_check", "lt_defer", "nosuch", "", "lt_n_idx", "9">>) ]
    [] kk = "ignore" -> [ k |-> "ignore" ]
    [] kk = "update" -> [ k |-> "update", list |-> IF Chance(x, 3, 30) THEN Star ELSE F(x, 1, pct, << << R("", "name") >>, << R("main", "n"), R("", "b") >>, << R("", "e") >> >>,
                                                   << <<>>, << R("", "nosuch") >>, << R("zz", "name") >>, << R("", "name"), R("", "name") >>, << BadR("1") >> >>) ]
    [] kk = "named" -> [ k |-> "named", name |-> Pick(x, 1, <<"Column", "Ignore", "Update", "Index">>) ]
    [] OTHER -> [ k |-> "alien", name |-> kk ]
GenConflict(x, pct) ==
  LET t == Pick(x, 1, <<"column", "index", "constraint", "none">>)
      a == IF t = "none" /\ ~Chance(x, 2, pct) THEN "ignore" ELSE Pick(x, 3, <<"ignore", "update", "update">>)
      base == (IF t = "none" THEN <<>> ELSE << OCItem(Mix(x, 4), t, pct) >>) \o (IF Chance(x, 5, pct) THEN <<>> ELSE << OCItem(Mix(x, 6), a, pct) >>)
      odd == IF Chance(x, 7, pct) THEN << OCItem(Mix(x, 8), Pick(x, 9, <<"column", "index", "constraint", "ignore", "update", "Relation", "Return", "named">>), 0) >> ELSE <<>>
  IN [ cl |-> "onconflict", form |-> F(x, 10, pct \div 3, <<"struct">>, <<"int">>), items |-> IF Chance(x, 12, 30) THEN odd \o base ELSE base \o odd ]
Names == <<"name", "id", "n">>
GenOrder(x, pct) == IF Chance(x, 1, pct) THEN [ cl |-> "orderby", items |-> <<>> ]
                    ELSE [ cl |-> "orderby", items |-> [ j \in 1..Pick(x, 2, <<1, 1, 2>>) |-> [ ref |-> Ref(Mix(x, 10 + j), 1, pct, FALSE), desc |-> Chance(x, 20 + j, 40), nulls |-> F(x, 30 + j, pct, <<"", "", "nullsfirst", "nullslast">>, <<"first", "NULLSFIRST">>) ] ] ]
Clause(x, cl, pct, kind, joined) ==
  CASE cl = "where" -> [ cl |-> "where", form |-> F(x, 1, pct \div 3, <<"struct">>, <<"int">>), items |-> IF Chance(x, 3, pct) THEN <<>> ELSE GenConds(Mix(x, 4), pct, joined, 1) ]
    [] cl \in {"Join", "From", "Using"} -> GenJoin(x, pct, cl)
    [] cl = "orderby" -> GenOrder(x, pct)
    [] cl \in {"limit", "offset"} -> [ cl |-> cl, form |-> F(x, 1, pct, <<"dir", "dir", "dir", "dir">> \o IntSeq, NotInt), val |-> F(x, 3, pct, <<"5", "0", "5", "0", "300">>, <<"", "abc", "-1", "5.5">>) ]
    [] cl \in {"optional", "return", "force"} -> [ cl |-> cl, list |-> ListOf(x, 1, pct, Names, joined) ]
    [] cl = "default" -> [ cl |-> cl, list |-> ListOf(x, 1, pct, <<"d", "e">>, FALSE) ]
    [] cl = "result" -> [ cl |-> cl, ty |-> IF joined /\ Chance(x, 9, 8) THEN Pick(x, 8, <<"*JRes", "[]*JRes">>) ELSE F(x, 1, pct, <<"Res", "*Res", "[]*Res", "[]Res">>, <<"int", "map[string]Res", "*int", "[]*BadRes", "Bad2Res", "func(Res)">>) ]
    [] cl = "rowsaffected" -> [ cl |-> cl, ty |-> F(x, 1, pct, IntSeq, NotInt) ]
    [] cl = "override" -> [ cl |-> cl, val |-> F(x, 1, pct, <<"system", "user", "USER">>, <<"", "both">>) ]
    [] cl = "onconflict" -> GenConflict(x, pct)
    [] cl = "handler" -> [ cl |-> cl, info |-> Chance(x, 1, 40) ]
    [] cl = "alien" -> [ cl |-> cl, name |-> Pick(x, 1, <<"Index", "Ignore", "Column", "LeftJoin", "Constraint", "Update">>) ]
    [] cl = "named" -> [ cl |-> cl, name |-> Pick(x, 1, <<"All", "OrderBy", "Return", "Force", "Default", "Limit", "Override", "Optional", "TextSearch", "Relation", "Column", "LeftJoin">>) ]
    [] cl = "plain" -> [ cl |-> cl, ty |-> Pick(x, 1, <<"string", "error", "[]error", "interface{}", "chan int", "func(error)", "*Res", "map[string]int", "struct{ X error }">>) ]
    [] cl = "constructor" -> [ cl |-> cl, v2 |-> Chance(x, 1, 50) ]
    [] cl = "textsearch" -> [ cl |-> cl, ref |-> F(x, 1, pct, << R("", "tsv"), R("main", "tsv") >>, << R("", "name"), R("", "nosuch"), BadR("1"), R("zz", "tsv") >>) ]
    [] OTHER -> [ cl |-> cl ]        \* filter, all, context, rel2, reldir

InList(e, l) == \E j \in 1..Len(l) : l[j] = e
Kinds12 == <<"select", "select", "select", "count", "exists", "notexists", "insert", "insert", "update", "update", "delete", "delete", "filter">>
Fitting(k) == CASE IsSel(k) -> <<"Join", "where", "orderby", "limit", "offset", "filter", "optional", "handler", "context", "plain", "where", "Join">>
                [] k = "insert" -> <<"return", "result", "rowsaffected", "default", "force", "override", "onconflict", "onconflict", "handler", "context", "plain">>
                [] k = "update" -> <<"From", "where", "where", "filter", "all", "return", "result", "rowsaffected", "default", "force", "handler", "context", "plain">>
                [] k = "delete" -> <<"Using", "where", "where", "filter", "all", "return", "result", "rowsaffected", "handler", "context", "plain">>
                [] OTHER -> <<"constructor", "textsearch", "constructor", "plain", "constructor">>
AllClauses == <<"where", "Join", "From", "Using", "orderby", "limit", "offset", "optional", "return", "force", "default", "result", "rowsaffected", "override", "onconflict", "handler",
                "context", "alien", "constructor", "textsearch", "filter", "all", "plain", "rel2", "reldir", "named">>
Tags == <<"lt:a", "lt:a", "lt", "public.lt:a", "lt">>
OddTags == <<"", "1t", "lt:", "a.b.lt", "lt:1a", "nosuch", "public.nosuch:m", "lt m", "other.lt">>
WrapsOf(k) == CASE k = "select" -> <<"ptr", "val", "slice", "ptrslice", "ptrslice", "func", "iface", "anon">>
                [] k = "insert" -> <<"ptr", "val", "ptrslice", "ptr", "anon">>
                [] k = "update" -> <<"ptr", "val", "ptr", "ptr", "ptrslice", "anon">>
                [] k = "delete" -> <<"directive", "ptr", "ptrslice", "ptr">>
                [] k = "filter" -> <<"ptr", "val", "ptrslice">>
                [] OTHER -> <<"ptr">>
OddWraps == <<"array", "int", "map", "ptranon", "sliceanon", "badfunc", "badiface", "chan", "ptrptr", "directive", "func", "iface">>
RecField(x, c, pct) ==
  LET ty == Cat.lt[c]
      odd == F(x, 1, pct, <<"none">>, <<"ref", "go", "opt">>)
  IN [ ref |-> IF odd = "ref" THEN Pick(x, 3, << R("", "nosuch"), BadR("1d"), BadR("a.b.c"), R("zz", "id"), R("main", "nosuch"), R("j", "name"), BadR("true") >>) ELSE R(IF Chance(x, 4, 12) THEN "main" ELSE "", c),
       go |-> IF odd = "go" THEN Pick(x, 5, AnyGo) ELSE IF ty \in Scalars THEN Pick(x, 5, GoSeq(ty)) ELSE IF ty = "tsv" THEN "[]string" ELSE "[]int",
       opt |-> IF odd = "opt" THEN Pick(x, 6, <<"default", "ro", "", "-", "+", "+x", "wo", "bogus">>) ELSE Pick(x, 7, <<"", "", "", "", "", "nn", "coalesce", "ro">>) ]
RecOf(x, k, pct) ==
  LET base == Pick(x, 1, << <<"id", "name", "n">>, <<"id", "name", "b", "d", "n">>, <<"id", "name">>, <<"name", "e", "id", "f", "n">>, <<"id", "name", "n", "arr">> >>)
      full == [ j \in 1..Len(base) |-> RecField(Mix(x, 20 + j), base[j], pct) ]
  IN IF Chance(x, 2, pct) THEN Pick(x, 3, << <<>>, << full[1] >>, << full[2] >>, full \o << full[2] >>, Tail(full) >>) ELSE full

\* the clauses tried with one another
Alpha(x) == << Clause(x, "where", 0, "", FALSE), Clause(x, "Join", 0, "", FALSE), Clause(x, "From", 0, "", FALSE), Clause(x, "Using", 0, "", FALSE), Clause(x, "orderby", 0, "", FALSE),
               Clause(x, "limit", 0, "", FALSE), Clause(x, "offset", 0, "", FALSE), Clause(x, "optional", 0, "", FALSE), Clause(x, "return", 0, "", FALSE), Clause(x, "force", 0, "", FALSE),
               Clause(x, "default", 0, "", FALSE), Clause(x, "result", 0, "", FALSE), Clause(x, "rowsaffected", 0, "", FALSE), Clause(x, "override", 0, "", FALSE), Clause(x, "onconflict", 0, "", FALSE),
               Clause(x, "handler", 0, "", FALSE), Clause(x, "context", 0, "", FALSE), Clause(x, "alien", 0, "", FALSE), Clause(x, "constructor", 0, "", FALSE), Clause(x, "textsearch", 0, "", FALSE),
               Clause(x, "filter", 0, "", FALSE), Clause(x, "all", 0, "", FALSE), Clause(x, "plain", 0, "", FALSE), Clause(x, "rel2", 0, "", FALSE), Clause(x, "reldir", 0, "", FALSE), Clause(x, "named", 0, "", FALSE) >>
NA == 26
KindSeq == <<"select", "count", "exists", "notexists", "insert", "update", "delete", "filter", "update", "insert">>

\* a clause with something wrong in it, in a description which is otherwise in order
Rich == << <<"insert", "onconflict">>, <<"insert", "onconflict">>, <<"insert", "onconflict">>, <<"insert", "onconflict">>, <<"insert", "onconflict">>, <<"insert", "onconflict">>,
           <<"select", "where">>, <<"select", "where">>, <<"select", "where">>, <<"update", "where">>, <<"delete", "where">>, <<"select", "Join">>, <<"select", "Join">>, <<"select", "Join">>,
           <<"update", "From">>, <<"update", "From">>, <<"delete", "Using">>, <<"delete", "Using">>, <<"select", "orderby">>, <<"select", "limit">>, <<"select", "offset">>, <<"select", "optional">>,
           <<"insert", "return">>, <<"update", "return">>, <<"delete", "return">>, <<"insert", "result">>, <<"update", "result">>, <<"delete", "result">>, <<"insert", "rowsaffected">>, <<"delete", "rowsaffected">>,
           <<"insert", "force">>, <<"update", "force">>, <<"insert", "default">>, <<"update", "default">>, <<"insert", "override">>, <<"filter", "textsearch">>, <<"filter", "textsearch">>,
           <<"select", "record">>, <<"insert", "record">>, <<"update", "record">>, <<"select", "named">>, <<"insert", "plain">>, <<"filter", "named">> >>
Odd(x, i) ==
  LET kc == Rich[(i % Len(Rich)) + 1]
      kind == kc[1]
      jn == CASE kind = "select" -> "Join" [] kind = "update" -> "From" [] OTHER -> "Using"
      joins == kc[2] = "where" /\ Chance(x, 1, 40)
      cs == (IF joins THEN << Clause(Mix(x, 2), jn, 0, kind, TRUE) >> ELSE <<>>)
            \o (IF kc[2] = "record" THEN <<>> ELSE << Clause(Mix(x, 3), kc[2], Pick(x, 4, <<8, 15, 25>>), kind, joins) >>)
            \o (IF kind = "delete" /\ kc[2] # "where" THEN << [ cl |-> "all" ] >> ELSE IF kind = "filter" THEN << [ cl |-> "constructor", v2 |-> FALSE ] >> ELSE <<>>)
  IN [ kind |-> kind, tag |-> Pick(x, 5, Tags), cnt |-> Pick(x, 1777, IntSeq), wrap |-> IF kind = "delete" THEN "ptr" ELSE Pick(x, 6, <<"ptr", "val">>),
       rec |-> RecOf(x, kind, IF kc[2] = "record" THEN 8 ELSE 0), clauses |-> cs ]

Desc(i) ==
  LET x == Mix((Seed * 1361 + i) % P, i \div 40000 + 3) IN
  IF Mode = "pairs"
  THEN LET q == i % (NA * NA * 10)
           kk == (q % 10) + 1
           kind == KindSeq[kk]
           slice == kk > 8
           c1 == Alpha(Mix(x, 1))[((q \div 10) % NA) + 1]
           c2 == Alpha(Mix(x, 2))[(q \div (10 * NA)) + 1]
           \* a delete needs to say which rows, a filter its constructor
           need == CASE kind = "delete" /\ {c1.cl, c2.cl} \cap {"where", "filter", "all"} = {} -> << [ cl |-> "all" ] >>
                     [] kind = "filter" /\ {c1.cl, c2.cl} \cap {"constructor"} = {} -> << [ cl |-> "constructor", v2 |-> FALSE ] >>
                     [] OTHER -> <<>>
       IN [ kind |-> kind, tag |-> Pick(x, 3, Tags), cnt |-> IF Chance(x, 1776, 3) THEN Pick(x, 1777, NotInt) ELSE Pick(x, 1777, IntSeq), wrap |-> IF slice THEN "ptrslice" ELSE IF kind = "delete" THEN "ptr" ELSE Pick(x, 4, <<"ptr", "val">>),
            rec |-> RecOf(x, kind, 0), clauses |-> <<c1, c2>> \o need ]
  ELSE IF Mode = "odd" THEN Odd(x, i)
  ELSE LET kind == Pick(x, 1, Kinds12)
           pct == Pick(x, 2, <<0, 0, 0, 3, 3, 6, 12>>)
           n == Pick(x, 3, <<0, 1, 2, 2, 3, 3, 4>>)
           raw == [ j \in 1..n |-> IF Chance(x, 100 + j, pct) THEN Pick(x, 110 + j, AllClauses) ELSE Pick(x, 110 + j, Fitting(kind)) ]
           \* mostly no clause twice, and joins before what may refer to them
           fresh == IF Chance(x, 4, pct * 2) THEN raw
                    ELSE LET keep == SelectSeq([ j \in 1..n |-> j ], LAMBDA j : ~\E h \in 1..(j - 1) : raw[h] = raw[j] \/ (raw[h] \in {"where", "filter", "all"} /\ raw[j] \in {"where", "filter", "all"})
                                                                                      \/ (raw[h] \in {"return", "result", "rowsaffected"} /\ raw[j] \in {"return", "result", "rowsaffected"}))
                         IN [ j \in 1..Len(keep) |-> raw[keep[j]] ]
           fits == IF Chance(x, 5, pct) THEN fresh
                   ELSE SelectSeq(fresh, LAMBDA c : ~(kind = "count" /\ c \in {"orderby", "limit", "offset"}) /\ ~(InList("filter", fresh) /\ c \in {"orderby", "limit", "offset"})
                                                    /\ ~(kind \notin {"select"} /\ c = "optional"))
           jn == CASE IsSel(kind) -> "Join" [] kind = "update" -> "From" [] OTHER -> "Using"
           hasj == InList(jn, fits)
           ordered == IF hasj THEN <<jn>> \o SelectSeq(fits, LAMBDA c : c # jn) ELSE fits
           need == CASE kind = "delete" /\ ~InList("where", ordered) /\ ~InList("filter", ordered) /\ ~InList("all", ordered) /\ ~Chance(x, 6, pct) -> ordered \o <<"all">>
                     [] kind = "filter" /\ ~InList("constructor", ordered) /\ ~Chance(x, 6, pct) -> ordered \o <<"constructor">>
                     [] OTHER -> ordered
           wrap0 == IF Chance(x, 7, pct) THEN Pick(x, 8, OddWraps) ELSE Pick(x, 8, WrapsOf(kind))
           wrap == IF kind = "update" /\ wrap0 \in {"slice", "ptrslice"} /\ (InList("where", need) \/ InList("filter", need) \/ InList("all", need)) /\ ~Chance(x, 9, pct) THEN "ptr"
                   ELSE IF wrap0 = "directive" /\ InList("return", need) /\ ~Chance(x, 9, pct) THEN "ptr" ELSE wrap0
       IN [ kind |-> kind, tag |-> IF Chance(x, 10, pct) THEN Pick(x, 11, OddTags) ELSE Pick(x, 11, Tags), wrap |-> wrap, cnt |-> F(x, 1777, pct, IntSeq, NotInt),
            rec |-> RecOf(x, kind, pct), clauses |-> [ j \in 1..Len(need) |-> Clause(Mix(x, 200 + j), need[j], pct, kind, hasj) ] ]

VARIABLES i, d, pos, s, v, why
vars == <<i, d, pos, s, v, why>>
Start == [ seen |-> {}, quals |-> {}, qual |-> FALSE, empty |-> FALSE, force |-> FALSE, opt |-> <<>>, jrel |-> FALSE ]
Init == i \in (From0 + 1)..(From0 + N) /\ d = Desc(i) /\ pos = 0 /\ s = Start /\ v = "accept" /\ why = <<>>
Clauses == /\ pos < Len(d.clauses)
           /\ LET t == Take(d, s, d.clauses[pos + 1]) IN s' = t.s /\ v' = V({v, t.v}) /\ why' = IF t.v = "refuse" THEN Append(why, d.clauses[pos + 1].cl) ELSE why
           /\ pos' = pos + 1 /\ UNCHANGED <<i, d>>
Whole == /\ pos = Len(d.clauses)
         /\ LET p == Parts(d, s) IN /\ v' = V({v} \cup { p[k] : k \in DOMAIN p })
                                    /\ why' = why \o SetToSeq({ k \in DOMAIN p : p[k] = "refuse" })
         /\ PrintT("TRACE " \o ToJson([ i |-> i, d |-> d, v |-> v', why |-> why' ]))
         /\ pos' = pos + 1 /\ UNCHANGED <<i, d, s>>
Spec == Init /\ [][Clauses \/ Whole]_vars
(* what has been refused stays refused; the order in which clauses that do not refer to one another stand does not matter is checked on pairs *)
Monotone == [][v = "refuse" => v' = "refuse"]_vars
Reasoned == pos > Len(d.clauses) => ((v = "refuse") <=> (why # <<>>))
Verdicts == v \in {"accept", "refuse", "open"}
(* no two clauses of those that select rows, nor of those that return them, in anything accepted *)
OneOf == (pos > Len(d.clauses) /\ v = "accept") => /\ Cardinality({ j \in 1..Len(d.clauses) : d.clauses[j].cl \in {"where", "filter", "all"} }) <= 1
                                                     /\ Cardinality({ j \in 1..Len(d.clauses) : d.clauses[j].cl \in {"return", "result", "rowsaffected"} }) <= 1
                                                     /\ (d.kind = "delete" => s.qual /\ ~s.empty)
=============================================================================
