-------------------------------- MODULE GenApi --------------------------------
(* Writes every history of up to Depth calls as a scenario for the real converter. *)
EXTENDS ApiAlphabet, TLC, Json, IOUtils
CONSTANT Depth
VARIABLE x
GenInit == x = 0
GenNext == FALSE /\ UNCHANGED x
ASSUME ndJsonSerialize(IOEnv.OUT, <<[cfgs |-> Cfgs, calls |-> Calls]>>)
ASSUME ndJsonSerialize(IOEnv.OUT2, SetToSeq({[c |-> c, h |-> h] :
   c \in SomeCfgs, h \in UNION {[1..d -> SomeCalls] : d \in 1..Depth}}))
=============================================================================
