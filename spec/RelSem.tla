------------------------------- MODULE RelSem -------------------------------
(* Reference semantics of query descriptions: a database of three tables with  *)
(* NULLs, three-valued search conditions, joins, ordering, windows, and the    *)
(* effect of insert, update and delete.  A description is what a user writes   *)
(* down in a query struct; nothing here knows how the generator renders it.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

(* Every value is a tuple of integers: <<n>> an integer, <<0>>/<<1>> a boolean,
   a tuple of character codes a text, <<-999>> NULL.  The order of texts (C
   collation), integers and booleans is then one and the same. *)
Nul == <<-999>>
IsNul(x) == x = Nul
RECURSIVE LexLt(_, _)
LexLt(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
               ELSE IF Head(x) = Head(y) THEN LexLt(Tail(x), Tail(y)) ELSE Head(x) < Head(y)

Low(x) == [ i \in 1..Len(x) |-> IF x[i] \in 65..90 THEN x[i] + 32 ELSE x[i] ]
Up(x) == [ i \in 1..Len(x) |-> IF x[i] \in 97..122 THEN x[i] - 32 ELSE x[i] ]

(* ------------------------------------------------------------------ tables *)
(* t(id key, a null, b default 7, s null, c unique, f null)
   u(id key, t_id null, w null, g null)      v(id key, u_id null, k null)
   ck(x, y key, n null, m null default 3)
   e(id key, p null, w_q null, w_z null, j jsonb null, xm xml null),
     lower(p) unique, w_q unique where w_z > 0
   g(id key generated always, a null)                                          *)
Cols == [ t |-> <<"id", "a", "b", "s", "c", "f">>, u |-> <<"id", "t_id", "w", "g">>, v |-> <<"id", "u_id", "k">>,
          ck |-> <<"x", "y", "n", "m">>, e |-> <<"id", "p", "w_q", "w_z", "j", "xm">>, g |-> <<"id", "a">> ]
TypeOf == [ id |-> "int", a |-> "int", b |-> "int", s |-> "text", c |-> "text", f |-> "bool",
            t_id |-> "int", w |-> "int", g |-> "text", u_id |-> "int", k |-> "int",
            x |-> "int", y |-> "int", n |-> "text", m |-> "int",
            p |-> "text", w_q |-> "int", w_z |-> "int", j |-> "json", xm |-> "xml" ]
PKey == [ t |-> <<"id">>, u |-> <<"id">>, v |-> <<"id">>, ck |-> <<"x", "y">>, e |-> <<"id">>, g |-> <<"id">> ]
NotNull == [ t |-> {"id", "b", "c"}, u |-> {"id"}, v |-> {"id"}, ck |-> {"x", "y"}, e |-> {"id"}, g |-> {"id"} ]
NullRow(tab) == [ c \in {Cols[tab][i] : i \in 1..Len(Cols[tab])} |-> Nul ]
(* columns with a default: a constant, or the next number of the table's sequence *)
HasDefault == [ t |-> {"id", "b"}, u |-> {}, v |-> {}, ck |-> {"m"}, e |-> {"id"}, g |-> {"id"} ]
SeqStart == 100
Default(tab, c, k) == CASE c = "b" -> <<7>> [] c = "m" -> <<3>>
                        [] c = "id" /\ c \in HasDefault[tab] -> <<SeqStart + k>>
                        [] OTHER -> Nul
(* unique keys by name: the key of a row, or <<>> when the row is not subject to it *)
UniqueKeys == [ t |-> <<"pk", "c">>, u |-> <<"pk">>, v |-> <<"pk">>, ck |-> <<"pk">>, e |-> <<"pk", "p", "q">>, g |-> <<"pk">> ]
KeyOf(tab, name, r) ==
  CASE name = "pk" -> [ i \in 1..Len(PKey[tab]) |-> r[PKey[tab][i]] ]
    [] name = "c" -> <<r.c>>
    [] name = "p" -> IF IsNul(r.p) THEN <<>> ELSE <<Low(r.p)>>
    [] name = "q" -> IF IsNul(r.w_q) \/ IsNul(r.w_z) \/ r.w_z[1] <= 0 THEN <<>> ELSE <<r.w_q>>
Clash(tab, name, r1, r2) == KeyOf(tab, name, r1) # <<>> /\ KeyOf(tab, name, r1) = KeyOf(tab, name, r2)

TRow(id, a, b, s, c, f) == [ id |-> <<id>>, a |-> a, b |-> <<b>>, s |-> s, c |-> c, f |-> f ]
URow(id, tid, w, g) == [ id |-> <<id>>, t_id |-> tid, w |-> w, g |-> g ]
VRow(id, uid, k) == [ id |-> <<id>>, u_id |-> uid, k |-> k ]

(* ------------------------------------------------------- three-valued logic *)
B3(b) == IF b THEN "T" ELSE "F"
Not3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] OTHER -> "N"
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "N" \/ y = "N" THEN "N" ELSE "T"
Or3(x, y) == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "N" \/ y = "N" THEN "N" ELSE "F"

(* Patterns: % any text, _ one character.  Regular expressions are only used
   with texts free of metacharacters, so matching is containment. *)
RECURSIVE Like(_, _)
Like(s, p) == IF p = <<>> THEN s = <<>>
              ELSE IF Head(p) = 37 THEN Like(s, Tail(p)) \/ (s # <<>> /\ Like(Tail(s), p))
              ELSE s # <<>> /\ (Head(p) = 95 \/ Head(p) = Head(s)) /\ Like(Tail(s), Tail(p))
Holds(s, p) == \E i \in 0..Len(s) : i + Len(p) <= Len(s) /\ SubSeq(s, i + 1, i + Len(p)) = p

(* x op y *)
Cmp(op, x, y) ==
  IF op = "isdistinct" THEN B3(x # y)
  ELSE IF op = "notdistinct" THEN B3(x = y)
  ELSE IF IsNul(x) \/ IsNul(y) THEN "N"
  ELSE CASE op = "=" -> B3(x = y)
         [] op \in {"<>", "!="} -> B3(x # y)
         [] op = "<" -> B3(LexLt(x, y))
         [] op = ">" -> B3(LexLt(y, x))
         [] op = "<=" -> B3(~LexLt(y, x))
         [] op = ">=" -> B3(~LexLt(x, y))
         [] op \in {"islike", "issimilar"} -> B3(Like(x, y))
         [] op \in {"notlike", "notsimilar"} -> B3(~Like(x, y))
         [] op = "isilike" -> B3(Like(Low(x), Low(y)))
         [] op = "notilike" -> B3(~Like(Low(x), Low(y)))
         [] op = "~" -> B3(Holds(x, y))
         [] op = "!~" -> B3(~Holds(x, y))
         [] op = "~*" -> B3(Holds(Low(x), Low(y)))
         [] op = "!~*" -> B3(~Holds(Low(x), Low(y)))

Any3(op, x, ys) == FoldLeft(LAMBDA acc, y : Or3(acc, Cmp(op, x, y)), "F", ys)
All3(op, x, ys) == FoldLeft(LAMBDA acc, y : And3(acc, Cmp(op, x, y)), "T", ys)

Func(fn, x) == IF IsNul(x) THEN Nul
               ELSE CASE fn = "" -> x [] fn = "lower" -> Low(x) [] fn = "upper" -> Up(x)

Btw(sym, x, lo, hi) ==
  LET one(p, q) == And3(Cmp(">=", x, p), Cmp("<=", x, q)) IN
  IF sym THEN Or3(one(lo, hi), one(hi, lo)) ELSE one(lo, hi)

(* --------------------------------------------------------------- conditions *)
(* An environment maps a table name to a row (the null row where a join found
   no partner).  A condition is a sequence of items joined by their bool tags,
   AND binding tighter than OR.  Items (args: the values of the fields, by slot):
     [k |-> "cmp", l, op, qua, fn, r, bool]      r an operand
     [k |-> "in",  l, neg, r, bool]              r a list field
     [k |-> "un",  l, op, bool]
     [k |-> "btw", l, neg, sym, lo, hi, bool]
     [k |-> "nest", items, bool]
   Operands: [o |-> "col", q, c], [o |-> "lit", v], [o |-> "fld", slot, go, ..] *)
Val(env, args, x) == CASE x.o = "col" -> env[x.q][x.c]
                       [] x.o = "lit" -> x.v
                       [] x.o = "fld" -> args[x.slot]

Unary(op, x) == CASE op = "isnull" -> B3(IsNul(x)) [] op = "notnull" -> B3(~IsNul(x))
                  [] op = "istrue" -> B3(x = <<1>>) [] op = "nottrue" -> B3(x # <<1>>)
                  [] op = "isfalse" -> B3(x = <<0>>) [] op = "notfalse" -> B3(x # <<0>>)
                  [] op = "isunknown" -> B3(IsNul(x)) [] op = "notunknown" -> B3(~IsNul(x))

RECURSIVE Cond(_, _, _)
Item(env, args, i) ==
  CASE i.k = "cmp" ->
         LET x == Func(i.fn, env[i.l.q][i.l.c]) IN
         IF i.qua = "" THEN Cmp(i.op, x, Func(i.fn, Val(env, args, i.r)))
         ELSE LET ys == args[i.r.slot] IN
              IF ys = <<Nul, Nul>> THEN "N"     \* the NULL array (a nil slice)
              ELSE IF i.qua = "all" THEN All3(i.op, x, ys) ELSE Any3(i.op, x, ys)
    [] i.k = "in" -> LET r == Any3("=", env[i.l.q][i.l.c], args[i.r.slot]) IN IF i.neg THEN Not3(r) ELSE r
    [] i.k = "un" -> Unary(i.op, env[i.l.q][i.l.c])
    [] i.k = "btw" -> LET r == Btw(i.sym, env[i.l.q][i.l.c], Val(env, args, i.lo), Val(env, args, i.hi)) IN
                      IF i.neg THEN Not3(r) ELSE r
    [] i.k = "nest" -> Cond(env, args, i.items)
(* fold over items keeping <<value of earlier disjuncts, value of the current conjunction>> *)
Cond(env, args, items) ==
  IF items = <<>> THEN "T"
  ELSE LET step(acc, j) == LET v == Item(env, args, items[j]) IN
             IF j = 1 THEN <<"F", v>>
             ELSE IF items[j].bool = "or" THEN <<Or3(acc[1], acc[2]), v>>
             ELSE <<acc[1], And3(acc[2], v)>>
           r == FoldLeft(step, <<"F", "T">>, [ j \in 1..Len(items) |-> j ])
       IN Or3(r[1], r[2])

(* -------------------------------------------------------------------- joins *)
(* A join is [type, tab, on]: on a condition over the tables joined so far.   *)
Extend(e, tab, row) == [ x \in DOMAIN e \cup {tab} |-> IF x = tab THEN row ELSE e[x] ]
JoinStep(db, envs, j) ==
  LET rows == db[j.tab]
      match(e) == SelectSeq(rows, LAMBDA r : Cond(Extend(e, j.tab, r), <<>>, j.on) = "T")
      left == FoldLeft(LAMBDA acc, e :
                LET m == match(e) IN
                acc \o [ i \in 1..Len(m) |-> Extend(e, j.tab, m[i]) ]
                    \o (IF m = <<>> /\ j.type \in {"left", "full"} THEN <<Extend(e, j.tab, NullRow(j.tab))>> ELSE <<>>),
                <<>>, envs.rows)
      lonely == SelectSeq(rows, LAMBDA r : \A i \in 1..Len(envs.rows) :
                             Cond(Extend(envs.rows[i], j.tab, r), <<>>, j.on) # "T")
      blank == [ x \in envs.tabs |-> NullRow(x) ]
      right == IF j.type \in {"right", "full"}
               THEN [ i \in 1..Len(lonely) |-> Extend(blank, j.tab, lonely[i]) ] ELSE <<>>
  IN [ tabs |-> envs.tabs \cup {j.tab}, rows |-> left \o right ]

Envs(db, first, joins) ==
  FoldLeft(LAMBDA acc, j : JoinStep(db, acc, j),
           [ tabs |-> {first}, rows |-> [ i \in 1..Len(db[first]) |-> [ x \in {first} |-> db[first][i] ] ] ], joins).rows

(* ------------------------------------------------------------------ reading *)
(* Ordering keys: [q, c, desc, nf].  Rows equal under all keys may come in any
   order, so a result is a sequence of tie groups and a window. *)
KeyCmp(k, x, y) ==
  LET u == x[k.q][k.c]  v == y[k.q][k.c] IN
  IF u = v THEN 0
  ELSE IF IsNul(u) THEN (IF k.nf THEN -1 ELSE 1)
  ELSE IF IsNul(v) THEN (IF k.nf THEN 1 ELSE -1)
  ELSE IF LexLt(u, v) = ~k.desc THEN -1 ELSE 1
RECURSIVE KeysCmp(_, _, _)
KeysCmp(ks, x, y) == IF ks = <<>> THEN 0
                     ELSE LET c == KeyCmp(Head(ks), x, y) IN IF c # 0 THEN c ELSE KeysCmp(Tail(ks), x, y)

(* insertion into the sequence of tie groups *)
RECURSIVE InsertGroup(_, _, _)
InsertGroup(ks, gs, e) ==
  IF gs = <<>> THEN << <<e>> >>
  ELSE LET c == KeysCmp(ks, e, Head(gs)[1]) IN
       IF c = 0 THEN <<Append(Head(gs), e)>> \o Tail(gs)
       ELSE IF c = -1 THEN << <<e>> >> \o gs
       ELSE <<Head(gs)>> \o InsertGroup(ks, Tail(gs), e)
Groups(ks, es) == FoldLeft(LAMBDA gs, e : InsertGroup(ks, gs, e), <<>>, es)

Selected(db, d, args) == SelectSeq(Envs(db, "t", d.joins), LAMBDA e : Cond(e, args, d.where) = "T")

(* limit/offset: [k |-> "none"], [k |-> "dir", n], [k |-> "fld", slot, dflt] (dflt 0: no fallback) *)
Num(x, args) == CASE x.k = "none" -> -1
                  [] x.k = "dir" -> x.n
                  [] x.k = "fld" -> IF args[x.slot] = <<0>> /\ x.dflt > 0 THEN x.dflt ELSE args[x.slot][1]
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y
(* how many of n rows a window lets through *)
Through(n, lim, off) == LET left == MaxOf(0, n - MaxOf(off, 0)) IN IF lim < 0 THEN left ELSE MinOf(lim, left)

Distinct(tab, rows) == \A i, j \in 1..Len(rows) : i < j =>
                          \A n \in 1..Len(UniqueKeys[tab]) : ~Clash(tab, UniqueKeys[tab][n], rows[i], rows[j])
=============================================================================
