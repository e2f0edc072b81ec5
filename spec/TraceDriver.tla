----------------------------- MODULE TraceDriver -----------------------------
(***************************************************************************)
(* Steps through recorded scenarios: each is one behaviour, each recorded  *)
(* event one step.  Judge decides an event in the specification's state    *)
(* before it, After gives the state after it.  A rejected event ends the   *)
(* scenario and is printed; a scenario that died is rejected.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Trace, PROP, Start, Judge(_, _), After(_, _)
VARIABLES sc, l, st, bad

Reject(step, op, why) ==
  PrintT("BAD " \o ToJson([id |-> Trace[sc].id, prop |-> PROP, step |-> step, op |-> op, why |-> why]))

DriverInit == sc \in 1..Len(Trace) /\ l = 1 /\ st = Start /\ bad = FALSE

Crash ==
  /\ Trace[sc].died # "" /\ ~bad /\ bad' = TRUE
  /\ Reject(0, "crash", Trace[sc].died)
  /\ UNCHANGED <<sc, l, st>>

Consume1 ==
  /\ Trace[sc].died = "" /\ ~bad /\ l <= Len(Trace[sc].steps)
  /\ l' = l + 1
  /\ LET ev == Trace[sc].steps[l]
         ok == Judge(st, ev)
     IN  /\ bad' = ~ok
         /\ st' = IF ok THEN After(st, ev) ELSE st
         /\ IF ok THEN TRUE ELSE Reject(l, ev.op, "rejected")
  /\ UNCHANGED sc

DriverNext == Crash \/ Consume1
DriverSpec == DriverInit /\ [][DriverNext]_<<sc, l, st, bad>>
=============================================================================
