------------------------------- MODULE Result -------------------------------
(***************************************************************************)
(* The documented structure of a result document, over parsed JSON: kinds  *)
(* as in Config, numbers with their value as a recorded double in v.       *)
(***************************************************************************)
EXTENDS Codec

MemberCount(o, n) == FoldLeft(LAMBDA a, m : IF m.n = n THEN a + 1 ELSE a, 0, o.v)
Only(o, n) == MemberCount(o, n) = 1
The(o, n) == o.v[CHOOSE i \in 1..Len(o.v) : o.v[i].n = n].x
IsStr(o, n, v) == Only(o, n) /\ The(o, n).k = "str" /\ The(o, n).v = v
IsNumber(x) == x.k \in {"int", "num"}
IsInt(o, n, q) == Only(o, n) /\ The(o, n).k = "int" /\ QEq(QOfDouble(The(o, n).v), q)   \* q a rational
IsArray(o, n) == Only(o, n) /\ The(o, n).k = "arr"

\* An array of four numbers that are exactly the given doubles.
FourNumbers(o, n, v) ==
  /\ IsArray(o, n) /\ Len(The(o, n).v) = 4
  /\ \A i \in 1..4 : LET x == The(o, n).v[i] IN
       IsNumber(x) /\ IsFin(x.v) /\ QEq(QOfDouble(x.v), QOfDouble(v[i])) /\ x.v[2] = v[i][2]

\* Offsets of the elements, and the stride behind them.
EOffsets(f) == FoldLeft(LAMBDA a, e : Append(a, a[Len(a)] + LayoutSize(e.l)), <<0>>, f)

ElementStated(x, e, offset, b) ==
  /\ x.k = "obj"
  /\ IsStr(x, "name", e.n) /\ IsStr(x, "layout", e.l) /\ IsStr(x, "type", e.t)
  /\ IsInt(x, "offset", QInt(offset))
  /\ FourNumbers(x, "minValue", b.mn) /\ FourNumbers(x, "maxValue", b.mx)
StreamStated(x, f, bs, Data(_)) ==
  /\ x.k = "obj"
  /\ IsArray(x, "vertexFormat")
  /\ LET els == The(x, "vertexFormat").v
         offsets == EOffsets(f)
     IN  /\ Len(els) = Len(f)
         /\ \A j \in 1..Len(f) : ElementStated(els[j], f[j], offsets[j], bs[j])
         /\ IsInt(x, "vertexStride", QInt(offsets[Len(f) + 1]))
  /\ Only(x, "vertexData") /\ The(x, "vertexData").k = "str" /\ Data(The(x, "vertexData"))
BufferStated(x, b, Data(_)) ==
  /\ x.k = "obj"
  /\ IsInt(x, "indexCount", b.c) /\ IsInt(x, "baseVertex", b.b)
  /\ Only(x, "indexData") /\ The(x, "indexData").k = "str" /\ Data(The(x, "indexData"))

\* d states formats, bounds, counts (rationals) and buffers; VData(i, s) and IData(i, s) accept the data strings.
Stated(d, out, bounds, vcount, itype, bufs, VData(_, _), IData(_, _)) ==
  /\ d.k = "obj"
  /\ IsArray(d, "vertices") /\ Len(The(d, "vertices").v) = Len(out)
  /\ \A i \in 1..Len(out) : StreamStated(The(d, "vertices").v[i], out[i], bounds[i], LAMBDA s : VData(i, s))
  /\ IsInt(d, "vertexCount", vcount)
  /\ IF itype = "None" THEN MemberCount(d, "indexType") = 0 /\ MemberCount(d, "indexBuffers") = 0
     ELSE /\ IsStr(d, "indexType", itype)
          /\ IF bufs = <<>>
             THEN MemberCount(d, "indexBuffers") = 0 \/ (IsArray(d, "indexBuffers") /\ The(d, "indexBuffers").v = <<>>)
             ELSE /\ IsArray(d, "indexBuffers") /\ Len(The(d, "indexBuffers").v) = Len(bufs)
                  /\ \A i \in 1..Len(bufs) :
                       BufferStated(The(d, "indexBuffers").v[i], bufs[i], LAMBDA s : IData(i, s))

AllFin(bounds) == \A i \in 1..Len(bounds) : \A j \in 1..Len(bounds[i]) :
                    \A k \in 1..4 : IsFin(bounds[i][j].mn[k]) /\ IsFin(bounds[i][j].mx[k])
=============================================================================
