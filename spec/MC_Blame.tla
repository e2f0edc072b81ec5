------------------------------- MODULE MC_Blame -------------------------------
(***************************************************************************)
(* Problems and places on the design level: a document has a problem       *)
(* exactly if it is not acceptable, for all documents built from a few     *)
(* good and bad parts; the place of the fault of a text is where its       *)
(* shortest hopeless prefix ends.                                          *)
(***************************************************************************)
EXTENDS Blame
CONSTANT MaxLen
VARIABLES doc, text
vars == <<doc, text>>

JS(v) == [k |-> "str", v |-> v]
JI(v) == [k |-> "int", v |-> v]
JA(v) == [k |-> "arr", v |-> v]
JO(v) == [k |-> "obj", v |-> v]
Mem(n, x) == [n |-> n, x |-> x]
Null == [k |-> "null"]
JE(n, l, t) == JO(<<Mem("name", n), Mem("layout", l), Mem("type", t)>>)
ElP == JE(JS("p"), JS("X8"), JS("UInt"))
ElQ == JE(JS("q"), JS("x16"), JS("float"))
\* Parts are sequences, as values of several kinds do not make a set here.
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
One(e) == JA(<<e>>)
AfterP(e) == JA(<<ElP, e>>)
AfterFP(f) == JA(<<JA(<<ElP>>), f>>)
Elements == <<ElP, ElQ, JE(JI(1), JS("X8"), JS("UInt")), JE(JS("r"), JS("Y8"), JS("UInt")), JE(JS("r"), JS("X8"), JS("Float")), JE(JS("r"), JS("X8"), JS("Uint8")),
              JO(<<Mem("name", JS("s")), Mem("type", JS("UInt"))>>), JI(3)>>
Formats == <<JA(<<>>), Null>> \o Map(One, Elements) \o Map(AfterP, <<ElP, ElQ, JI(3)>>)
OutFormats == <<JA(<<>>), JI(0)>> \o Map(One, Formats) \o Map(AfterFP, <<JA(<<ElP>>), JA(<<ElQ>>), JA(<<ElQ, ElP>>), JA(<<>>)>>)
IndexTypes == <<<<>>, <<Mem("indexType", Null)>>, <<Mem("indexType", JS("uint16"))>>, <<Mem("indexType", JS("UInt8"))>>, <<Mem("indexType", JI(16))>>>>
PrimTypes == <<<<>>, <<Mem("primitiveType", Null)>>, <<Mem("primitiveType", JS("LineList"))>>, <<Mem("primitiveType", JS("Lines"))>>,
               <<Mem("primitiveType", JS("patchlist"))>>, <<Mem("primitiveType", JS("PatchList")), Mem("patchPoints", JI(0))>>,
               <<Mem("primitiveType", JS("PatchList")), Mem("patchPoints", JI(3))>>, <<Mem("primitiveType", JI(1))>>>>
Stream(f, i) == JO(<<Mem("vertexFormat", f), Mem("vertexData", JS("d"))>> \o i)
Untyped(f) == Stream(f, <<>>)
Typed(i) == Stream(JA(<<ElP>>), i)
Indexed(i) == Stream(JA(<<ElP>>), i \o <<Mem("indexData", JS("i"))>>)
Streams == <<JO(<<>>), Null>> \o Map(Untyped, Formats) \o Map(Typed, IndexTypes) \o Map(Indexed, IndexTypes) \o <<JO(<<Mem("vertexFormat", JA(<<ElQ>>))>>)>>
JT(n, t) == JO(<<Mem("name", n), Mem("transform", t)>>)
Listed(t) == <<Mem("vertexTransforms", JA(<<t>>))>>
Transforms == <<<<>>, <<Mem("vertexTransforms", JA(<<>>))>>, <<Mem("vertexTransforms", Null)>>>>
              \o Map(Listed, <<JT(JS("p"), JS("bounds")), JT(JS("p"), JS("Bound")), JT(JI(1), JS("Bounds")), JT(JS("p"), Null), JI(1)>>)
Lists == <<JA(<<>>), JS("x")>> \o Map(One, Streams)
GoodOut == JA(<<JA(<<ElP>>)>>)
GoodList == JA(<<Stream(JA(<<ElP>>), <<>>)>>)
Root(f, i, p, s, t) == JO(<<Mem("vertexFormat", f)>> \o i \o p \o <<Mem("vertexStreams", s)>> \o t)
Others == <<JI(1), Null, JA(<<>>), JO(<<>>), JO(<<Mem("vertexFormat", GoodOut)>>), JO(<<Mem("vertexStreams", GoodList)>>)>>
Texts == <<"texts", 0, 0>>
\* At most two parts are other than good.
Picks(n, s, t) == {<<n, i, k>> : i \in 1..Len(s), k \in 1..Len(t)}
Docs == Picks("fi", OutFormats, IndexTypes) \cup Picks("fp", OutFormats, PrimTypes) \cup Picks("fs", OutFormats, Lists) \cup Picks("ft", OutFormats, Transforms)
        \cup Picks("ip", IndexTypes, PrimTypes) \cup Picks("is", IndexTypes, Lists) \cup Picks("it", IndexTypes, Transforms)
        \cup Picks("ps", PrimTypes, Lists) \cup Picks("pt", PrimTypes, Transforms) \cup Picks("st", Lists, Transforms) \cup Picks("o", Others, <<0>>)
DocOf(d) ==
  LET a == d[2]  b == d[3] IN
  CASE d[1] = "fi" -> Root(OutFormats[a], IndexTypes[b], <<>>, GoodList, <<>>)
    [] d[1] = "fp" -> Root(OutFormats[a], <<>>, PrimTypes[b], GoodList, <<>>)
    [] d[1] = "fs" -> Root(OutFormats[a], <<>>, <<>>, Lists[b], <<>>)
    [] d[1] = "ft" -> Root(OutFormats[a], <<>>, <<>>, GoodList, Transforms[b])
    [] d[1] = "ip" -> Root(GoodOut, IndexTypes[a], PrimTypes[b], GoodList, <<>>)
    [] d[1] = "is" -> Root(GoodOut, IndexTypes[a], <<>>, Lists[b], <<>>)
    [] d[1] = "it" -> Root(GoodOut, IndexTypes[a], <<>>, GoodList, Transforms[b])
    [] d[1] = "ps" -> Root(GoodOut, <<>>, PrimTypes[a], Lists[b], <<>>)
    [] d[1] = "pt" -> Root(GoodOut, <<>>, PrimTypes[a], GoodList, Transforms[b])
    [] d[1] = "st" -> Root(GoodOut, <<>>, <<>>, Lists[a], Transforms[b])
    [] OTHER -> Others[a]

\* { } [ ] , : " 1 0 newline e
Bytes == {123, 125, 91, 93, 44, 58, 34, 49, 48, 10, 101}
Init == doc \in Docs \cup {Texts} /\ text = <<>>
Next == /\ doc = Texts /\ Len(text) < MaxLen /\ UNCHANGED doc
        /\ \E c \in Bytes : text' = Append(text, c)
Spec == Init /\ [][Next]_vars

\* Every refusal can be explained and every problem is a reason to refuse.
Explained == LET d == DocOf(doc) IN doc # Texts => (Problems(d) = {}) = Acceptable(d)
Prefix(k) == SubSeq(text, 1, k)
Hopeless(k) == PdaRun(Prefix(k)).q = "bad"
Placed ==
  ~PdaAccepts(PdaRun(text)) =>
  LET f == Fault(text) IN
  /\ f.from <= f.to /\ f.from >= 1 /\ f.to <= Len(text) + 1
  /\ \A k \in 1..(f.to - 1) : ~Hopeless(k)
  /\ f.to <= Len(text) => Hopeless(f.to)
  \* A token has no brackets, so between its start and the fault nothing is opened or closed.
  /\ PdaRun(Prefix(f.from - 1)).st = PdaRun(Prefix(f.to - 1)).st
\* Lines and columns, written as a walk.
Walked(i) == FoldLeft(LAMBDA a, c : IF c = 10 THEN <<a[1] + 1, 1>> ELSE <<a[1], a[2] + 1>>, <<1, 1>>, Prefix(i - 1))
Counted == \A i \in 1..(Len(text) + 1) : Walked(i) = <<LineOf(text, i), ColumnOf(text, i)>>
=============================================================================
