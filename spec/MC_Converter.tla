----------------------------- MODULE MC_Converter -----------------------------
(***************************************************************************)
(* Exhaustive check of the conversion design: every input of up to MaxLen  *)
(* positions (up to renaming of the vertices), every primitive type, every *)
(* maximum index value of up to MaxMax that can hold a primitive.          *)
(***************************************************************************)
EXTENDS ConverterModel, TLC

CONSTANTS MaxLen, MaxMax, MaxPatch, UsePrims

VARIABLE st

\* All inputs of length n in restricted-growth form; markers only for strips and fans.
RECURSIVE Inputs(_, _)
Inputs(n, marks) ==
  IF n = 0 THEN {[s |-> <<>>, m |-> 0]}
  ELSE UNION {  {[s |-> Append(r.s, <<k>>), m |-> IF k > r.m THEN k ELSE r.m] : k \in 1..(r.m + 1)}
                \cup (IF marks THEN {[s |-> Append(r.s, Restart), m |-> r.m]} ELSE {})
              : r \in Inputs(n - 1, marks)}

CountOk(prim, patch, n) ==
  IF prim \in RestartPrims THEN n = 0 \/ n >= MinCount(prim, patch)
  ELSE n % Stride(prim, patch) = 0

Init ==
  \E prim \in UsePrims, patch \in 1..MaxPatch, max \in 0..MaxMax :
    /\ prim = "PatchList" \/ patch = 1
    /\ max >= MinCount(prim, patch) - 1
    /\ \E n \in 0..MaxLen :
         /\ CountOk(prim, patch, n)
         /\ \E r \in Inputs(n, prim \in RestartPrims) :
              st = Init0([prim |-> prim, patch |-> patch, max |-> max, in |-> r.s])

Pending == ~st.done /\ st.pos <= Len(st.c.in)
DoSplit == Pending /\ NeedSplit(st) /\ st' = Consume(Split(st))
DoConsume == Pending /\ ~NeedSplit(st) /\ st.c.in[st.pos] # Restart /\ st' = Consume(st)
DoMarker == Pending /\ ~NeedSplit(st) /\ st.c.in[st.pos] = Restart /\ st' = Consume(st)
Finish == ~st.done /\ st.pos > Len(st.c.in) /\ st' = Step(st)
Next == DoSplit \/ DoConsume \/ DoMarker \/ Finish
Spec == Init /\ [][Next]_st /\ WF_st(Next)

Terminates == <>(st.done)

C == st.c
\* Partial results draw exactly what was consumed so far, at every step.
InvGeometry ==
  GeometryOk(C.prim, C.patch, SubSeq(C.in, 1, st.pos - 1), OutBufs(st), st.verts)
InvIndices == IndicesOk(C.prim, C.patch, C.in, C.max, OutBufs(st), Len(st.verts)) \/ st.ix = <<>>
InvSharing == SharingOk(C.prim, OutBufs(st), st.verts)
InvSplits == SplitsOk(C.prim, C.patch, C.max, st.pos - 1, OutBufs(st), st.verts)
\* The vertices a split carries over are different ones: it comes right after a new vertex, so
\* copying them into the new range never finds one that is there already.
InvCarriedDistinct ==
  NeedSplit(st) /\ C.prim \in RestartPrims =>
    LET len == Len(st.ix)
        strip == len - st.last
    IN  /\ strip >= 2 => st.ix[len] # st.ix[len - 1] /\ st.ix[len] # st.ix[st.last + 1]
        /\ Len(st.verts) = Cur(st).b + C.max + 1
\* Vertices are never removed or changed, indices never changed once written except by a split.
Monotone == [][IsPrefix(st.verts, st'.verts) /\ IsPrefix(st.ix, st'.ix)]_st
\* The action that follows is the step function the trace specification folds.
StepAgrees == [][st' = Step(st)]_st
=============================================================================
