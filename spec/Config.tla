------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The documented structure of a configuration document, over parsed JSON: *)
(* every value is [k |-> kind, v |-> content] with kinds null, bool, int   *)
(* (fits 32 bits), num, str, arr (a sequence) and obj (a sequence of       *)
(* members [n |-> name, x |-> value]; the first member of a name counts).  *)
(***************************************************************************)
EXTENDS Tables

HasMember(o, n) == \E i \in 1..Len(o.v) : o.v[i].n = n
Member(o, n) == o.v[CHOOSE i \in 1..Len(o.v) : o.v[i].n = n /\ \A k \in 1..(i - 1) : o.v[k].n # n].x
IsObj(x) == x.k = "obj"
IsArr(x) == x.k = "arr"
HasStr(o, n) == HasMember(o, n) /\ Member(o, n).k = "str"
Absent(o, n) == ~HasMember(o, n) \/ Member(o, n).k = "null"
All(a, P(_)) == \A i \in 1..Len(a.v) : P(a.v[i])

TransformSeq == <<"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm">>
IndexSeq == <<"UInt16", "UInt32">>
Named(names, s) == LET a == LookUp(names, s) IN IF a = 0 THEN "Invalid" ELSE names[a]

ElementOk(e) ==
  /\ IsObj(e) /\ HasStr(e, "name") /\ HasStr(e, "layout") /\ HasStr(e, "type")
  /\ ElementValid(LayoutNamed(Member(e, "layout").v), TypeNamed(Member(e, "type").v))
ElementName(e) == Member(e, "name").v
FormatOk(f) ==
  /\ IsArr(f) /\ f.v # <<>>
  /\ All(f, ElementOk)
  /\ \A i, k \in 1..Len(f.v) : i # k => ElementName(f.v[i]) # ElementName(f.v[k])
OutFormatOk(f) ==
  /\ IsArr(f) /\ f.v # <<>> /\ All(f, FormatOk)
  /\ \A i, k \in 1..Len(f.v) : i # k =>
       \A a \in 1..Len(f.v[i].v) : \A b \in 1..Len(f.v[k].v) :
         ElementName(f.v[i].v[a]) # ElementName(f.v[k].v[b])
IndexTypeOk(o) == Absent(o, "indexType") \/ (HasStr(o, "indexType") /\ Named(IndexSeq, Member(o, "indexType").v) # "Invalid")
PrimOk(o) ==
  \/ Absent(o, "primitiveType")
  \/ /\ HasStr(o, "primitiveType")
     /\ LET p == PrimNamed(Member(o, "primitiveType").v) IN
        /\ p # "Invalid"
        /\ p = "PatchList" =>
             HasMember(o, "patchPoints") /\ Member(o, "patchPoints").k = "int" /\ Member(o, "patchPoints").v > 0
StreamOk(s) ==
  /\ IsObj(s) /\ HasMember(s, "vertexFormat") /\ FormatOk(Member(s, "vertexFormat"))
  /\ HasStr(s, "vertexData")
  /\ IndexTypeOk(s)
  /\ ~Absent(s, "indexType") => HasStr(s, "indexData")
TransformOk(t) == IsObj(t) /\ HasStr(t, "name") /\ HasStr(t, "transform") /\ Named(TransformSeq, Member(t, "transform").v) # "Invalid"

Acceptable(d) ==
  /\ IsObj(d)
  /\ HasMember(d, "vertexFormat") /\ OutFormatOk(Member(d, "vertexFormat"))
  /\ IndexTypeOk(d)
  /\ PrimOk(d)
  /\ HasMember(d, "vertexStreams") /\ IsArr(Member(d, "vertexStreams"))
  /\ Member(d, "vertexStreams").v # <<>> /\ All(Member(d, "vertexStreams"), StreamOk)
  /\ HasMember(d, "vertexTransforms") => IsArr(Member(d, "vertexTransforms")) /\ All(Member(d, "vertexTransforms"), TransformOk)

-----------------------------------------------------------------------------
(* What an acceptable document says. *)
ReadFormat(f) ==
  LET l(i) == LayoutNamed(Member(f.v[i], "layout").v)
      off(i) == FoldLeft(LAMBDA a, k : a + LayoutSize(l(k)), 0, [k \in 1..(i - 1) |-> k])
  IN  [i \in 1..Len(f.v) |-> [n |-> ElementName(f.v[i]), l |-> l(i), t |-> TypeNamed(Member(f.v[i], "type").v), o |-> off(i)]]
ReadIndexType(o) == IF Absent(o, "indexType") THEN "None" ELSE Named(IndexSeq, Member(o, "indexType").v)
ReadPrim(o) == IF Absent(o, "primitiveType") THEN "TriangleList" ELSE PrimNamed(Member(o, "primitiveType").v)
Read(d) ==
  [out |-> LET f == Member(d, "vertexFormat") IN [i \in 1..Len(f.v) |-> ReadFormat(f.v[i])],
   itype |-> ReadIndexType(d),
   prim |-> ReadPrim(d),
   patch |-> IF ReadPrim(d) = "PatchList" THEN Member(d, "patchPoints").v ELSE 0,
   streams |-> LET s == Member(d, "vertexStreams") IN
     [i \in 1..Len(s.v) |->
       [fmt |-> ReadFormat(Member(s.v[i], "vertexFormat")), vdata |-> Member(s.v[i], "vertexData").v,
        itype |-> ReadIndexType(s.v[i]),
        idata |-> IF ReadIndexType(s.v[i]) = "None" THEN "" ELSE Member(s.v[i], "indexData").v]],
   trs |-> IF ~HasMember(d, "vertexTransforms") THEN <<>>
           ELSE LET t == Member(d, "vertexTransforms") IN
                [i \in 1..Len(t.v) |-> [n |-> Member(t.v[i], "name").v, t |-> Named(TransformSeq, Member(t.v[i], "transform").v)]]]
=============================================================================
