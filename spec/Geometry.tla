------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* What a sequence of vertex positions draws.                              *)
(*                                                                         *)
(* A position is a non-empty sequence (the content of its vertex, compared *)
(* by equality only); the empty sequence is a restart marker.  Triangles   *)
(* with two identical corners draw nothing.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

PrimSeq == <<"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip",
             "TriangleFan", "PatchList">>
Prims == {PrimSeq[i] : i \in 1..Len(PrimSeq)}
RestartPrims == {"LineStrip", "TriangleStrip", "TriangleFan"}
TrianglePrims == {"TriangleList", "TriangleStrip", "TriangleFan"}

Restart == <<>>

\* Indices consumed per primitive of a list; a strip or fan advances by one position.
Stride(prim, patch) ==
  CASE prim = "LineList" -> 2 [] prim = "TriangleList" -> 3 [] prim = "PatchList" -> patch
    [] OTHER -> 1
\* Indices needed to draw anything.
MinCount(prim, patch) ==
  CASE prim \in {"LineList", "LineStrip"} -> 2 [] prim \in TrianglePrims -> 3
    [] prim = "PatchList" -> (IF patch = 0 THEN 1 ELSE patch) [] OTHER -> 1

Degenerate(p) == p[1] = p[2] \/ p[2] = p[3] \/ p[1] = p[3]

Groups(seq, n) == [k \in 1..(Len(seq) \div n) |-> SubSeq(seq, (k - 1) * n + 1, k * n)]

\* The maximal runs between restart markers.
Runs(seq) ==
  LET f == FoldLeft(LAMBDA acc, x : IF x = Restart THEN [r |-> Append(acc.r, acc.c), c |-> <<>>]
                                    ELSE [acc EXCEPT !.c = Append(@, x)],
                    [r |-> <<>>, c |-> <<>>], seq)
  IN  Append(f.r, f.c)

RunPrims(prim, r) ==
  CASE prim = "LineStrip" ->
         [k \in 1..(IF Len(r) < 2 THEN 0 ELSE Len(r) - 1) |-> <<r[k], r[k + 1]>>]
    [] prim = "TriangleStrip" ->    \* every other triangle is reversed
         [k \in 1..(IF Len(r) < 3 THEN 0 ELSE Len(r) - 2) |->
            IF k % 2 = 1 THEN <<r[k], r[k + 1], r[k + 2]>> ELSE <<r[k + 1], r[k], r[k + 2]>>]
    [] OTHER ->
         [k \in 1..(IF Len(r) < 3 THEN 0 ELSE Len(r) - 2) |-> <<r[1], r[k + 1], r[k + 2]>>]

\* Everything drawn, in order.
Draws(prim, patch, seq) ==
  LET all == IF prim \in RestartPrims
             THEN FlattenSeq([i \in 1..Len(Runs(seq)) |-> RunPrims(prim, Runs(seq)[i])])
             ELSE Groups(seq, Stride(prim, patch))
  IN  IF prim \in TrianglePrims THEN SelectSeq(all, LAMBDA p : ~Degenerate(p)) ELSE all

\* The same primitive: a triangle may start at any of its corners.
SamePrim(prim, a, b) ==
  IF prim \in TrianglePrims
  THEN b \in {a, <<a[2], a[3], a[1]>>, <<a[3], a[1], a[2]>>}
  ELSE a = b

SameDraws(prim, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SamePrim(prim, a[i], b[i])
IsPrefixDraws(prim, a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : SamePrim(prim, a[i], b[i])

-----------------------------------------------------------------------------
(***************************************************************************)
(* Properties of a finished conversion.                                    *)
(*   verts  sequence of output vertices (contents)                         *)
(*   bufs   sequence of [b |-> base vertex, i |-> indices], an index -1    *)
(*          being the restart marker                                       *)
(*   in     the input positions (contents, restart markers)                *)
(***************************************************************************)

\* What one index buffer refers to.
BufContents(verts, buf) ==
  [k \in 1..Len(buf.i) |-> IF buf.i[k] = -1 THEN Restart ELSE verts[buf.i[k] + buf.b + 1]]

RangeEnd(bufs, verts, i) == IF i = Len(bufs) THEN Len(verts) ELSE bufs[i + 1].b

\* C02
IndicesOk(prim, patch, in, max, bufs, nverts) ==
  /\ bufs # <<>>
  /\ bufs[1].b = 0
  /\ \A i \in 1..(Len(bufs) - 1) : bufs[i].b < bufs[i + 1].b
  /\ \A i \in 1..Len(bufs) : \A k \in 1..Len(bufs[i].i) :
        LET x == bufs[i].i[k]
        IN  \/ x = -1 /\ prim \in RestartPrims /\ \E p \in 1..Len(in) : in[p] = Restart
            \/ x >= 0 /\ x <= max /\ x + bufs[i].b < nverts
  /\ prim \notin RestartPrims => \A i \in 1..Len(bufs) : Len(bufs[i].i) % Stride(prim, patch) = 0

\* C01
GeometryOk(prim, patch, in, bufs, verts) ==
  SameDraws(prim, Draws(prim, patch, in),
            FlattenSeq([i \in 1..Len(bufs) |-> Draws(prim, patch, BufContents(verts, bufs[i]))]))

\* C03
SharingOk(prim, bufs, verts) ==
  \A i \in 1..Len(bufs) :
    LET lo == bufs[i].b + 1
        hi == RangeEnd(bufs, verts, i)
        used == {bufs[i].i[k] + bufs[i].b + 1 : k \in 1..Len(bufs[i].i)}
    IN  /\ \A a \in lo..hi : \A c \in (a + 1)..hi : verts[a] # verts[c]
        /\ \A k \in 1..Len(bufs[i].i) : bufs[i].i[k] + bufs[i].b + 1 <= hi
        /\ LET unused == Cardinality((lo..hi) \ used)
           IN  IF i < Len(bufs) /\ prim \in RestartPrims THEN unused <= 2 ELSE unused = 0

\* C04
SplitsOk(prim, patch, max, n, bufs, verts) ==
  LET s == Stride(prim, patch) IN
  /\ \A i \in 1..(Len(bufs) - 1) : bufs[i + 1].b - bufs[i].b > max + 1 - s
  /\ n > 0 => \A i \in 1..Len(bufs) : bufs[i].i # <<>>
  \* No primitive was added to a range that might not have held it.
  /\ \A i \in 1..Len(bufs) :
        LET q == bufs[i].i
        IN  Len(q) > s => Cardinality({q[k] : k \in 1..(Len(q) - s)} \ {-1}) <= max + 1 - s
=============================================================================
