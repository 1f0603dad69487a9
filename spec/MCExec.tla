------------------------------- MODULE MCExec -------------------------------
(* Exhaustive exploration of Exec; every complete behaviour is printed as one  *)
(* TRACE line: the shape, the environment's script and what must be observed.  *)
EXTENDS Exec, Json

All == { s \in [op : Ops, many : BOOLEAN, out : Outs, dst : {"rel", "result"}, ptr : BOOLEAN, hook : BOOLEAN,
                handler : {"none", "err", "info"}, via : {"named", "ptr", "iface"}, ctx : {"none", "field", "arg"},
                extra : {"none", "where", "in", "filter"}] : Legal(s) }

\* Every combination of operation, output, storage and handler in its plainest setting, and every
\* context and restriction with everything else at its richest.
Core == { s \in All :
            \/ s.via = "named" /\ s.ctx = "none" /\ s.extra = (IF s.op = "delete" THEN "where" ELSE "none")
            \/ s.via # "named" /\ s.ctx = "none" /\ s.ptr = s.hook /\ s.extra = (IF s.op = "delete" THEN "where" ELSE "none")
            \/ s.via = "named" /\ s.handler # "err" /\ (Scalar(s) \/ s.ptr) /\ (s.hook \/ s.out \in {"none", "affected"} \/ Scalar(s)) }

Emit ==
  pc = "done" =>
    PrintT("TRACE " \o ToJson([shape |-> shape, inputs |-> inputs, script |-> script, ret |-> ret, failure |-> failure,
                               told |-> told, hooked |-> Len(hooked), given |-> Len(given)]))
=============================================================================
