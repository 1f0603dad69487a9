-------------------------------- MODULE Scan --------------------------------
(* What scanning into a destination does (C19).  A driver hands a scanner a    *)
(* source: text in a buffer it will reuse, a string, a value of some Go type.  *)
(* Destinations are variables of the caller.  Scanning sets one destination to *)
(* the scanned value and does nothing else, then or ever after.                *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Dests, Vals, MaxSteps

VARIABLES kept,   \* what the caller took out of each destination (by plain assignment), "-" if nothing
          dest,   \* what each destination holds: "v0" = whatever it held before, "null", "v1", ...; "?" after a failed scan
          buf,    \* what the driver's buffer holds
          steps
vars == <<kept, dest, buf, steps>>

Init == kept = [d \in Dests |-> "-"] /\ dest = [d \in Dests |-> "v0"] /\ buf = "-" /\ steps = <<>>

Step(s) == Len(steps) < MaxSteps /\ steps' = Append(steps, s @@ [want |-> dest', kept |-> kept'])

\* a row arrives in the driver's buffer and is scanned
FromBuffer(d, v) == /\ buf' = v /\ dest' = [dest EXCEPT ![d] = v] /\ UNCHANGED kept
                    /\ Step([do |-> "bytes", d |-> d, v |-> v])
FromString(d, v) == /\ buf' = buf /\ dest' = [dest EXCEPT ![d] = v] /\ UNCHANGED kept
                    /\ Step([do |-> "string", d |-> d, v |-> v])
FromNull(d) == /\ buf' = buf /\ dest' = [dest EXCEPT ![d] = "null"] /\ UNCHANGED kept
               /\ Step([do |-> "null", d |-> d, v |-> "null"])
\* the driver overwrites its buffer, and the caller the memory of a destination it has copied out
Clobber == /\ buf \in Vals /\ buf' = "-" /\ UNCHANGED <<dest, kept>>
           /\ Step([do |-> "clobber", d |-> 0, v |-> "-"])
\* what was taken out of the destination may be the same memory
Scribble(d) == /\ dest[d] \in Vals /\ dest' = [dest EXCEPT ![d] = "?"] /\ UNCHANGED buf
               /\ kept' = [kept EXCEPT ![d] = IF @ = "-" THEN @ ELSE "?"]
               /\ Step([do |-> "scribble", d |-> d, v |-> "-"])
\* input of a type no scanner of this kind handles: an error
Foreign(d) == /\ dest' = [dest EXCEPT ![d] = "?"] /\ UNCHANGED <<buf, kept>>
              /\ Step([do |-> "foreign", d |-> d, v |-> "-"])
\* text that is not of the type: an error
Garbage(d) == /\ dest' = [dest EXCEPT ![d] = "?"] /\ UNCHANGED <<buf, kept>>
              /\ Step([do |-> "garbage", d |-> d, v |-> "-"])
\* the caller takes the value out of the destination, to keep it, before it scans the next row
Take(d) == /\ dest[d] \in Vals /\ kept' = [kept EXCEPT ![d] = dest[d]] /\ UNCHANGED <<dest, buf>>
           /\ Step([do |-> "take", d |-> d, v |-> "-"])

Next == \/ Clobber
        \/ \E d \in Dests : \/ Take(d) \/ FromNull(d) \/ Scribble(d) \/ Foreign(d) \/ Garbage(d)
                            \/ \E v \in Vals : FromBuffer(d, v) \/ FromString(d, v)
Spec == Init /\ [][Next]_vars

\* a step touches at most the destination it names
Local == [][\A d \in Dests : dest'[d] # dest[d] => steps'[Len(steps')].d = d]_vars
\* and what a destination holds is what was last scanned into it
Last(d) == LET S == { i \in 1..Len(steps) : steps[i].d = d /\ steps[i].do # "take" } IN IF S = {} THEN "v0" ELSE
           LET s == steps[CHOOSE i \in S : \A j \in S : j <= i] IN
           IF s.do \in {"bytes", "string", "null"} THEN s.v ELSE "?"
Holds == \A d \in Dests : dest[d] = Last(d)
\* what was taken out stays what it was, whatever is scanned
Stays == [][\A d \in Dests : kept'[d] # kept[d] => steps'[Len(steps')].do \in {"take", "scribble"}]_vars
Emit == Len(steps) = MaxSteps => PrintT("TRACE " \o ToJson(steps))
=============================================================================
