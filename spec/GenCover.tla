-------------------------------- MODULE GenCover --------------------------------
(***************************************************************************)
(* One shortest history for every reachable state of the protocol.  With   *)
(* every call made after each of them the real converter takes every       *)
(* transition of the protocol, however long the history that leads to it.  *)
(***************************************************************************)
EXTENDS ApiAlphabet, TLC, Json
VARIABLES cv, c, h
State == <<c, cv>>      \* the view: histories are not part of the state

Do(call) ==
  CASE call.op = "add" -> AfterAdd(cv, call)
    [] call.op = "conv" -> AfterConv(cv)
    [] call.op = "poke" -> AfterPoke(cv, call.buf, call.idx)
    [] call.op = "tr" -> AfterTr(cv, FirstAt(cv, call.name), call.t)
    [] OTHER -> cv
Init == /\ c \in 1..Len(Cfgs)
        /\ cv = NewConv([out |-> Cfgs[c].out, itype |-> Cfgs[c].itype, prim |-> Cfgs[c].prim, patch |-> Cfgs[c].patch, max |-> Cfgs[c].max])
        /\ h = <<>>
Next == UNCHANGED c /\ \E i \in 1..Len(Calls) : cv' = Do(Calls[i]) /\ h' = Append(h, i)
Spec == Init /\ [][Next]_<<cv, c, h>>
\* Evaluated once for every state, when it is first reached.
Emit == PrintT("REACHED " \o ToJson([c |-> c, h |-> h]))
=============================================================================
