------------------------------- MODULE MC_Path -------------------------------
(***************************************************************************)
(* Paths grown character by character, and the walk to the root that the   *)
(* tool's directory creation makes.                                        *)
(***************************************************************************)
EXTENDS Path
CONSTANT MaxLen
VARIABLES p, q, walk
vars == <<p, q, walk>>
Letters == {97, 46, Sep}
Init == p = <<>> /\ q = <<>> /\ walk = <<>>
GrowP == Len(p) < MaxLen /\ \E c \in Letters : p' = Append(p, c) /\ UNCHANGED <<q, walk>> /\ walk = <<>>
GrowQ == Len(q) < MaxLen - 1 /\ \E c \in Letters : q' = Append(q, c) /\ UNCHANGED <<p, walk>> /\ walk = <<>>
Start == walk = <<>> /\ p # <<>> /\ walk' = <<p>> /\ UNCHANGED <<p, q>>
Top(d) == d = <<>> \/ Parent(d) = d
Up == walk # <<>> /\ ~Top(walk[1]) /\ walk' = <<Parent(walk[1])>> /\ UNCHANGED <<p, q>>
Next == GrowP \/ GrowQ \/ Start \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Up)

Rejoin == Names(Join(Parent(p), FileName(p))) = Names(p)
JoinNames == Names(Join(p, q)) = IF IsAbs(q) THEN Names(q) ELSE <<IsAbs(p), Components(p) \o Components(q)>>
JoinAssoc == \A r \in {<<>>, <<97>>, <<Sep>>, <<Sep, 97>>, <<97, Sep>>} : Join(Join(p, q), r) = Join(p, Join(q, r))
FileOfJoin == (q # <<>> /\ ~IsAbs(q)) => FileName(Join(p, q)) = FileName(q)
NoSepInFile == \A i \in 1..Len(FileName(p)) : FileName(p)[i] # Sep
ParentShorter == Parent(p) = p \/ Len(Parent(p)) < Len(p)
RootFixed == Parent(<<Sep>>) = <<Sep>>
\* The walk ends at the root or at nothing.
Ends == (walk # <<>>) ~> (walk # <<>> /\ Top(walk[1]))
=============================================================================
