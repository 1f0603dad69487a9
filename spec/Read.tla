-------------------------------- MODULE Read --------------------------------
(* Behaviours that run select descriptions over database states: C07.  Every   *)
(* step executes one description and logs what must come back.                 *)
EXTENDS RelGen
CONSTANTS ND, NR, Seed     \* descriptions, runs of each, base number

Desc(i) == GenSelect(Mix((Seed * 977 + i) % P, i \div 40000 + 1))
VARIABLES i, db, run, last
vars == <<i, db, run, last>>

(* What a description must yield on a database: tie groups of target rows and
   how many rows the window skips and keeps; the scalar forms follow. *)
Expect(dd, data, args) ==
  LET d == Spelled(dd)
      e == Selected(data, [ joins |-> d.joins, where |-> Meaning(d.where) ], args)
      n == Len(e)
      single == d.kind = "one"
      lim == IF single /\ d.limit.k = "none" THEN 1 ELSE Num(d.limit, args)
      off == MaxOf(0, Num(d.offset, args))
      k == Through(n, lim, off)
      gs == Groups(d.order, e)
  IN CASE d.kind = "count" -> [ count |-> n ]
       [] d.kind = "exists" -> [ yes |-> k > 0 ]
       [] d.kind = "notexists" -> [ yes |-> k = 0 ]
       [] OTHER -> [ skip |-> off, take |-> IF single THEN MinOf(1, k) ELSE k, groups |-> [ g \in 1..Len(gs) |-> [ j \in 1..Len(gs[g]) |-> gs[g][j].t ] ] ]

Init == /\ i \in 1..ND /\ run = 0 /\ db = DB(Mix(i, 1)) /\ last = <<>>
Exec == /\ run < NR
        /\ LET d == Desc(i)
               x == Mix(Mix(i, 900 + run), Seed)
               args == ArgsOf(SelFields(Spelled(d)), x)
               data == DB(Mix(x, 31))
           IN /\ db' = data
              /\ last' = [ args |-> args, want |-> Expect(d, data, args) ]
              /\ PrintT("TRACE " \o ToJson([ d |-> i, db |-> data, args |-> args, want |-> last'.want ]))
        /\ run' = run + 1 /\ UNCHANGED i
Next == Exec
Spec == Init /\ [][Next]_vars

Consistent == Distinct("t", db.t)
ASSUME \A j \in 1..ND : PrintT("DESC " \o ToJson([ i |-> j, d |-> Desc(j) ]))
=============================================================================
