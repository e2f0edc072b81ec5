-------------------------------- MODULE MC_Api --------------------------------
(***************************************************************************)
(* Every sequence of calls of the alphabet: the protocol's own guarantees. *)
(***************************************************************************)
EXTENDS ApiAlphabet, TLC
CONSTANT Depth     \* 0: histories of any length
VARIABLES cv, k, okay
vars == <<cv, k, okay>>

More == cv.live /\ (Depth = 0 \/ k < Depth)
Count == k' = IF Depth = 0 THEN 0 ELSE k + 1
Init == cv = NoConv /\ k = 0 /\ okay = TRUE

New1 == /\ ~cv.live
        /\ \E i \in 1..Len(Cfgs) :
             LET c == Cfgs[i]
                 cfg == [out |-> c.out, itype |-> c.itype, prim |-> c.prim, patch |-> c.patch, max |-> c.max]
             IN  cv' = NewConv(cfg) /\ okay' = ConfigOk(cfg)
        /\ UNCHANGED k
AddStream(a) == More /\ Count /\ okay' = AddOk(cv, a) /\ cv' = AfterAdd(cv, a)
Convert == More /\ Count /\ okay' = ConvOk(cv) /\ cv' = AfterConv(cv)
SetTr(n, t) == /\ More /\ Count /\ okay' = (FirstAt(cv, n) # <<>>)
               /\ cv' = AfterTr(cv, FirstAt(cv, n), t)
Poke == \E i \in 1..Len(Calls) :
          /\ Calls[i].op = "poke" /\ More /\ Count /\ okay' = TRUE
          /\ cv' = AfterPoke(cv, Calls[i].buf, Calls[i].idx)
AddAny == \E i \in 1..Len(Calls) : Calls[i].op = "add" /\ AddStream(Calls[i])
TrAny == \E i \in 1..Len(Calls) : Calls[i].op = "tr" /\ SetTr(Calls[i].name, Calls[i].t)
Next == New1 \/ AddAny \/ Convert \/ TrAny \/ Poke
Spec == Init /\ [][Next]_vars

InvSuppliedOnce ==
  cv.live => \A n \in Wanted(cv) :
    Cardinality({s \in 1..Len(cv.streams) : Has(cv.streams[s].fmt, n)}) <= 1
InvCounts == cv.live => \A s \in 1..Len(cv.streams) : StreamCount(cv.streams[s]) = cv.n
InvDone == cv.live /\ cv.done =>
  /\ cv.ok /\ Wanted(cv) \subseteq Supplied(cv) /\ ~OutOfRange(cv)
  /\ CountFits(cv.cfg.prim, cv.cfg.patch, cv.n)
  /\ cv.cfg.itype = "None" => \A p \in 1..cv.n : ~HasMark(cv, p)
InvInvalid == cv.live /\ ~cv.ok => cv.streams = <<>> /\ ~cv.done /\ cv.n = -1
\* Rejected calls change nothing; accepted ones never take anything back.
RejectedNoop == [][(cv.live /\ ~okay') => cv' = cv]_vars
Grows == [][cv.live => /\ IsPrefix([i \in 1..Len(cv.streams) |-> cv.streams[i].fmt],
                                    [i \in 1..Len(cv'.streams) |-> cv'.streams[i].fmt])
                       /\ (cv.done => cv'.done /\ cv'.streams = cv.streams)
                       /\ (cv.n # -1 => cv'.n = cv.n) /\ cv'.cfg = cv.cfg]_vars
=============================================================================
