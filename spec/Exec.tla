-------------------------------- MODULE Exec --------------------------------
(* What a generated method does while it runs (C05, C06): the protocol between *)
(* the method, the database connection, the user's hooks and the user's error  *)
(* handler.  A *shape* is the query description the method was generated for;  *)
(* every other choice (does the call fail, how many rows come, which row fails *)
(* to scan, does the iterator refuse a record, ...) is made by the environment *)
(* and recorded, so that a behaviour of this specification is a test script    *)
(* for the real method together with everything an observer may see.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Shapes,      \* the shapes explored (see MCExec)
          MaxRows      \* the longest result set

VARIABLES shape,   \* the description being executed
          inputs,  \* how many records the method was given (slice inputs)
          pc,      \* where the method is
          script,  \* the environment's choices so far
          row,     \* number of rows fetched so far
          ret,     \* what the method returned: "-" (running), "nil", "fail" (the failure itself), "handled" (what the handler made of it)
          failure, \* the first failure, "-" if none
          told,    \* the failures the error handler was told about
          hooked,  \* rows whose after-scan hook ran, in order
          given,   \* rows delivered, in order
          open     \* TRUE while a result set is open

vars == <<shape, inputs, pc, script, row, ret, failure, told, hooked, given, open>>

--------------------------------------------------------------------------------
(* Shapes.                                                                     *)
(*  op      select | insert | update | delete                                  *)
(*  many    the relation field holds a list of records (input of insert/update) *)
(*  out     none      nothing is read back                                     *)
(*          affected  the number of affected rows                              *)
(*          one       one row, into a record                                   *)
(*          list      rows, each appended as a fresh record                    *)
(*          back      rows, scanned into the records that were the input       *)
(*          iterF/iterI  rows, each handed to a function / an interface method *)
(*          count/exists/notexists  one scalar                                 *)
(*  dst     rel | result: the field that receives the rows                     *)
(*  ptr     records are held by pointer                                        *)
(*  hook    the record type has an AfterScan method                            *)
(*  handler none | err | info                                                  *)
(*  via     named | ptr | iface: how the handler field is declared; with ptr    *)
(*          and iface the record's columns and hook come from an embedded type *)
(*  ctx     none | field | arg: where the context comes from                   *)
(*  extra   none | where | in | filter: how rows are restricted                *)
Ops      == {"select", "insert", "update", "delete"}
Outs     == {"none", "affected", "one", "list", "back", "iterF", "iterI", "count", "exists", "notexists"}
Scalar(s)  == s.out \in {"count", "exists", "notexists"}
Single(s)  == s.out = "one" \/ Scalar(s)
Rows(s)    == s.out \in {"list", "back", "iterF", "iterI"}
Iter(s)    == s.out \in {"iterF", "iterI"}

Legal(s) ==
  /\ s.op = "select" => /\ s.dst = "rel" /\ s.out \in {"one", "list", "iterF", "iterI", "count", "exists", "notexists"}
                        /\ s.many = (s.out = "list")
  /\ Scalar(s) => s.op = "select" /\ ~s.ptr /\ ~s.hook
  /\ s.out \in {"none", "affected"} => s.dst = "rel" /\ ~s.hook
  /\ s.op \in {"insert", "update"} =>
       /\ s.dst = "rel" => s.out \in {"none", "affected"} \cup (IF s.many THEN {"back"} ELSE {"one"})
       /\ s.dst = "result" => s.out \in {"one", "list", "iterF", "iterI"}
  /\ s.op = "delete" =>
       /\ s.dst = "rel" => s.out \in {"none", "affected", "one", "list", "iterF", "iterI"} /\ s.many = (s.out = "list")
       /\ s.dst = "result" => s.out \in {"one", "list", "iterF", "iterI"} /\ ~s.many
  \* restrictions: inserts have none, an update of a list goes by primary key, a filter goes after everything else
  /\ s.op = "insert" => s.extra = "none"
  /\ s.op = "update" /\ s.many => s.extra = "none"
  /\ s.op = "delete" => s.extra # "none"
  /\ s.handler = "none" /\ ~s.hook => s.via = "named"
  /\ s.extra = "filter" => \/ s.op = "select" /\ s.out \notin {"one"}
                           \/ s.op = "update"
                           \/ s.op = "delete" /\ s.out \in {"none", "affected"}

--------------------------------------------------------------------------------
Init == /\ shape \in Shapes
        /\ inputs \in (IF shape.op \in {"insert", "update"} /\ shape.many THEN 1..MaxRows ELSE {1})
        /\ pc = "start" /\ script = << >> /\ row = 0 /\ ret = "-" /\ failure = "-"
        /\ told = << >> /\ hooked = << >> /\ given = << >> /\ open = FALSE

Env(step, what) == script' = Append(script, [at |-> step, do |-> what])
Keep(v) == UNCHANGED v

\* The query fails: the handler, if there is one, is told, and decides what is returned.
Fail(what) ==
  /\ failure' = what
  /\ open' = FALSE                       \* whatever was open is closed when the method returns
  /\ IF shape.handler = "none"
     THEN ret' = "fail" /\ pc' = "done" /\ told' = told
     ELSE ret' = "-" /\ pc' = "handle" /\ told' = Append(told, what)

Succeed == /\ ret' = "nil" /\ pc' = "done" /\ failure' = failure /\ told' = told /\ open' = FALSE

\* The statement is sent.
Call ==
  /\ pc = "start"
  /\ \/ Env("call", "fail") /\ Fail("call") /\ Keep(<<row, hooked, given>>)
     \/ /\ Env("call", "ok") /\ Keep(<<row, hooked, given>>)
        /\ IF shape.out = "none" THEN Succeed
           ELSE /\ pc' = (IF shape.out = "affected" THEN "affected" ELSE "next")
                /\ open' = (shape.out # "affected")
                /\ Keep(<<ret, failure, told>>)
  /\ Keep(<<shape, inputs>>)

\* The number of affected rows is asked for.
Affected ==
  /\ pc = "affected"
  /\ \/ Env("affected", "ok") /\ Succeed
     \/ Env("affected", "fail") /\ Fail("affected")
  /\ Keep(<<shape, inputs, row, hooked, given>>)

Limit == IF shape.out = "back" THEN inputs ELSE IF Single(shape) THEN 2 ELSE MaxRows

\* The result set is advanced: another row, the end, or a failure.  Of a single-row
\* result only the first row is looked at, so a second one is the environment's
\* business; having none is a failure of its own.
Next_ ==
  /\ pc = "next"
  /\ \/ /\ row < (IF Single(shape) THEN 1 ELSE Limit)
        /\ Env("next", "row") /\ row' = row + 1 /\ pc' = "scan" /\ Keep(<<ret, failure, told, open>>)
     \/ /\ row > 0 \/ ~Scalar(shape)      \* a scalar query always has its one row
        /\ Env("next", "end") /\ Keep(row)
        /\ IF Single(shape) /\ row = 0 THEN Fail("norows") ELSE Succeed
     \/ Env("next", "fail") /\ Keep(row) /\ Fail("next")
  /\ Keep(<<shape, inputs, hooked, given>>)

\* The row is scanned.
Scan ==
  /\ pc = "scan"
  /\ \/ Env("scan", "ok") /\ pc' = (IF Single(shape) THEN "close" ELSE "hook") /\ Keep(<<ret, failure, told, open>>)
     \/ Env("scan", "fail") /\ Fail("scan")
  /\ Keep(<<shape, inputs, row, hooked, given>>)

\* A single-row result is closed as part of reading it, and closing may fail.
Close ==
  /\ pc = "close"
  /\ \/ Env("close", "ok") /\ pc' = "hook" /\ open' = FALSE /\ Keep(<<ret, failure, told>>)
     \/ Env("close", "fail") /\ Fail("close")
  /\ Keep(<<shape, inputs, row, hooked, given>>)

\* The record's after-scan hook runs, exactly once, before anyone sees the record.
Hook ==
  /\ pc = "hook"
  /\ hooked' = (IF shape.hook THEN Append(hooked, row) ELSE hooked)
  /\ pc' = "deliver"
  /\ Keep(<<shape, inputs, script, row, ret, failure, told, given, open>>)

Deliver ==
  /\ pc = "deliver"
  /\ given' = Append(given, row)
  /\ IF Iter(shape)
     THEN \/ Env("deliver", "ok") /\ pc' = "next" /\ Keep(<<ret, failure, told, open>>)
          \/ Env("deliver", "fail") /\ Fail("deliver")
     ELSE /\ Keep(script)
          /\ IF Single(shape) THEN Succeed ELSE pc' = "next" /\ Keep(<<ret, failure, told, open>>)
  /\ Keep(<<shape, inputs, row, hooked>>)

\* The user's handler passes the failure on, replaces it, or decides it is none.
Handle ==
  /\ pc = "handle"
  /\ \E r \in {"pass", "wrap", "swallow"} :
       /\ Env("handle", r)
       /\ ret' = (IF r = "pass" THEN "fail" ELSE IF r = "wrap" THEN "handled" ELSE "nil")
  /\ pc' = "done"
  /\ Keep(<<shape, inputs, row, failure, told, hooked, given, open>>)

Next == Call \/ Affected \/ Next_ \/ Scan \/ Close \/ Hook \/ Deliver \/ Handle
Done == pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* Properties of the protocol itself.                                          *)
Iota(n) == [i \in 1..n |-> i]

TypeOK == /\ Legal(shape) /\ row \in 0..MaxRows /\ ret \in {"-", "nil", "fail", "handled"}

\* C05: success is reported only when nothing failed, or when the user's handler said so.
NoFalseSuccess ==
  pc = "done" => /\ failure = "-" => ret = "nil" /\ told = << >>
                 /\ failure # "-" => \/ ret \in {"fail", "handled"}
                                     \/ script[Len(script)] = [at |-> "handle", do |-> "swallow"]
\* C05: a failure is told once, and only if there is someone to tell and something to tell.
ToldOnce == /\ Len(told) <= 1
            /\ pc = "done" => (Len(told) = 1) = (failure # "-" /\ shape.handler # "none")
            /\ told # << >> => told[1] = failure
\* Every failing response of the environment is the failure that is reported.
FirstFailure ==
  \A i \in 1..Len(script) : script[i].do = "fail" => failure = script[i].at /\ \A j \in 1..(i-1) : script[j].do # "fail"
\* C06: delivered in order, without gaps; hooks ran exactly for what was delivered.
InOrder == /\ given = Iota(Len(given))
           /\ hooked = IF shape.hook THEN Iota(Len(hooked)) ELSE << >>
           /\ shape.hook => Len(hooked) \in {Len(given), Len(given) + 1}
           /\ shape.hook /\ pc = "done" => Len(hooked) = Len(given)
\* C06: a successful run delivered every row there was.
Complete == pc = "done" /\ failure = "-" => Len(given) = row
Released == pc \in {"done", "handle"} => ~open
StopsAtFailure == failure # "-" => pc \in {"handle", "done"}

Inv == TypeOK /\ NoFalseSuccess /\ ToldOnce /\ FirstFailure /\ InOrder /\ Complete /\ Released /\ StopsAtFailure
=============================================================================
