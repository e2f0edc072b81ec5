------------------------------- MODULE Tables -------------------------------
(* Names, sizes and validity of layouts, types and primitives.             *)
EXTENDS Codec, Text

PrimSeq == <<"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList">>
LookUp(names, s) == IF \E i \in 1..Len(names) : SameName(names[i], s)
                    THEN CHOOSE i \in 1..Len(names) : SameName(names[i], s) ELSE 0
LayoutNamed(s) ==
  LET a == LookUp(LayoutSeq, s) b == LookUp(ColorSeq, s)
  IN  IF a # 0 THEN LayoutSeq[a] ELSE IF b # 0 THEN LayoutSeq[b] ELSE "Invalid"
TypeNamed(s) == LET a == LookUp(TypeSeq, s) IN IF a # 0 THEN TypeSeq[a] ELSE "Invalid"
PrimNamed(s) == LET a == LookUp(PrimSeq, s) IN IF a # 0 THEN PrimSeq[a] ELSE "Invalid"
LayoutPos(l) == CHOOSE i \in 1..Len(LayoutSeq) : LayoutSeq[i] = l

\* Vertex counts as pairs of 16-bit halves.
Bit16(x, i) == (x \div 2^(16 - i)) % 2                           \* i-th highest of 16 bits
ModPair(c, k) ==                                                \* k < 2^30
  LET Take(r, x) == FoldLeft(LAMBDA a, i : ((2 * a) + Bit16(x, i)) % k, r, [i \in 1..16 |-> i])
  IN  Take(Take(0, c[1]), c[2])
IsZero(c) == c[1] = 0 /\ c[2] = 0
AtLeast(c, k) == c[1] > 0 \/ c[2] >= k
CountFitsPair(p, c, patch) ==
  CASE p = "PointList" -> TRUE
    [] p = "LineList" -> ModPair(c, 2) = 0
    [] p = "LineStrip" -> IsZero(c) \/ AtLeast(c, 2)
    [] p = "TriangleList" -> ModPair(c, 3) = 0
    [] p \in {"TriangleStrip", "TriangleFan"} -> IsZero(c) \/ AtLeast(c, 3)
    [] p = "PatchList" -> patch > 0 /\ ModPair(c, patch) = 0
    [] OTHER -> FALSE
=============================================================================
