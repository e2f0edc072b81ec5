---------------------------- MODULE MC_Independent ----------------------------
(***************************************************************************)
(* Several converters, called in any order, by any thread.  Every call is  *)
(* one step on one of them; the data they are given may be the same.       *)
(* What a converter is depends on its own calls only: replaying them alone *)
(* gives the same converter and the same successes, so the recorded calls  *)
(* of every converter can be judged one converter after the other, whatever *)
(* the real order was.                                                     *)
(***************************************************************************)
EXTENDS ApiAlphabet, TLC
CONSTANTS Depth, Which
VARIABLES cv, own       \* every converter and its own calls with their success
vars == <<cv, own>>

K == 1..2
Init == cv = [k \in K |-> NoConv] /\ own = [k \in K |-> <<>>]

Apply(c, call) ==
  CASE call.op = "new" -> NewConv([out |-> call.out, itype |-> call.itype, prim |-> call.prim,
                                   patch |-> call.patch, max |-> call.max])
    [] call.op = "add" -> AfterAdd(c, call)
    [] call.op = "conv" -> AfterConv(c)
    [] call.op = "tr" -> AfterTr(c, FirstAt(c, call.name), call.t)
    [] OTHER -> c
Success(c, call) ==
  CASE call.op = "new" -> TRUE
    [] call.op = "add" -> AddOk(c, call)
    [] call.op = "conv" -> ConvOk(c)
    [] call.op = "tr" -> FirstAt(c, call.name) # <<>>
    [] OTHER -> TRUE

Do(k, call) ==
  /\ Len(own[k]) < Depth
  /\ (call.op = "new") <=> ~cv[k].live
  /\ own' = [own EXCEPT ![k] = Append(@, [call |-> call, ok |-> Success(cv[k], call)])]
  /\ cv' = [cv EXCEPT ![k] = Apply(@, call)]
Create == \E k \in K : \E i \in {1, 2, 3} : Do(k, Cfgs[i])
Call == \E k \in K : \E i \in Which : Do(k, Calls[i])
Next == Create \/ Call
Spec == Init /\ [][Next]_vars

\* The converter's own calls alone.
Alone(k) == FoldLeft(LAMBDA acc, e : [c |-> Apply(acc.c, e.call), ok |-> acc.ok /\ (e.ok = Success(acc.c, e.call))],
                     [c |-> NoConv, ok |-> TRUE], own[k])
Independent == \A k \in K : Alone(k).ok /\ Alone(k).c = cv[k]
\* A step changes one converter.
OneAtATime == [][\E k \in K : cv'[3 - k] = cv[3 - k] /\ own'[3 - k] = own[3 - k]]_vars
\* Calls on different converters commute.
Commute ==
  \A i, j \in Which :
    LET a == Calls[i]
        b == Calls[j]
    IN  cv[1].live /\ cv[2].live =>
          LET ab == [[cv EXCEPT ![1] = Apply(@, a)] EXCEPT ![2] = Apply(@, b)]
              ba == [[cv EXCEPT ![2] = Apply(@, b)] EXCEPT ![1] = Apply(@, a)]
          IN  ab = ba
=============================================================================
