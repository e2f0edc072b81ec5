-------------------------------- MODULE GenConv --------------------------------
(***************************************************************************)
(* Writes every initial state of MC_Converter (primitive, limit, input) as *)
(* a scenario for the real converter.                                      *)
(***************************************************************************)
EXTENDS MC_Converter, Json, IOUtils

AllCases ==
  UNION {UNION {UNION {UNION {
     {[prim |-> prim, patch |-> patch, max |-> max,
       in |-> [i \in 1..n |-> IF r.s[i] = Restart THEN 0 ELSE r.s[i][1]]]
         : r \in Inputs(n, prim \in RestartPrims)}
     : n \in {n \in 0..MaxLen : CountOk(prim, patch, n)}}
     : max \in {m \in 0..MaxMax : m >= MinCount(prim, patch) - 1}}
     : patch \in (IF prim = "PatchList" THEN 1..MaxPatch ELSE {1})}
     : prim \in UsePrims}

GenInit == st = 0
GenNext == FALSE /\ UNCHANGED st

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(AllCases))
=============================================================================
