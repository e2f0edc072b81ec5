-------------------------------- MODULE Blame --------------------------------
(***************************************************************************)
(* What the error messages about a configuration name and where they point.*)
(***************************************************************************)
EXTENDS Config, Json1, Says, FiniteSets

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

-----------------------------------------------------------------------------
(* What is wrong with a configuration document. *)
Nameless == {<<>>}
LOCAL IfNot(ok, problems) == IF ok THEN {} ELSE problems
LOCAL Each(a, P(_)) == UNION {P(a.v[i]) : i \in 1..Len(a.v)}

ElementProblems(e) ==
  IF ~IsObj(e) THEN Nameless
  ELSE LET has(m) == HasStr(e, m)
           lay == Member(e, "layout").v
           typ == Member(e, "type").v
       IN  UNION {IfNot(has(m), {<<m>>}) : m \in {"name", "layout", "type"}}
           \cup (IF has("layout") THEN IfNot(LayoutNamed(lay) # "Invalid", {<<lay>>}) ELSE {})
           \cup (IF has("type") THEN IfNot(TypeNamed(typ) # "Invalid", {<<typ>>}) ELSE {})
           \cup (IF has("layout") /\ has("type") /\ LayoutNamed(lay) # "Invalid" /\ TypeNamed(typ) # "Invalid"
                 THEN IfNot(ElementValid(LayoutNamed(lay), TypeNamed(typ)), {<<lay, typ>>}) ELSE {})
LOCAL NamesAt(f) == {i \in 1..Len(f.v) : IsObj(f.v[i]) /\ HasStr(f.v[i], "name")}
FormatProblems(f) ==
  IF ~IsArr(f) \/ f.v = <<>> THEN Nameless
  ELSE Each(f, ElementProblems)
       \cup {<<ElementName(f.v[i])>> : i \in {i \in NamesAt(f) : \E k \in NamesAt(f) : k < i /\ ElementName(f.v[k]) = ElementName(f.v[i])}}
OutFormatProblems(f) ==
  IF ~IsArr(f) \/ f.v = <<>> THEN Nameless
  ELSE Each(f, FormatProblems)
       \cup UNION {UNION {IF i # k /\ IsArr(f.v[i]) /\ IsArr(f.v[k])
                          THEN {<<n>> : n \in {ElementName(f.v[i].v[a]) : a \in NamesAt(f.v[i])} \cap {ElementName(f.v[k].v[b]) : b \in NamesAt(f.v[k])}}
                          ELSE {} : i \in 1..Len(f.v)} : k \in 1..Len(f.v)}
IndexTypeProblems(o) ==
  IF Absent(o, "indexType") THEN {}
  ELSE IF Member(o, "indexType").k # "str" THEN Nameless
  ELSE IfNot(IndexTypeOk(o), {<<Member(o, "indexType").v>>})
PrimProblems(o) ==
  IF Absent(o, "primitiveType") THEN {}
  ELSE IF Member(o, "primitiveType").k # "str" THEN Nameless
  ELSE LET p == PrimNamed(Member(o, "primitiveType").v) IN
       IF p = "Invalid" THEN {<<Member(o, "primitiveType").v>>}
       ELSE IF p # "PatchList" THEN {}
       ELSE IF ~HasMember(o, "patchPoints") \/ Member(o, "patchPoints").k # "int" THEN {<<"patchPoints">>}
       ELSE IfNot(Member(o, "patchPoints").v > 0, Nameless)
StreamProblems(s) ==
  IF ~IsObj(s) THEN Nameless
  ELSE (IF HasMember(s, "vertexFormat") THEN FormatProblems(Member(s, "vertexFormat")) ELSE {<<"vertexFormat">>})
       \cup IfNot(HasStr(s, "vertexData"), {<<"vertexData">>})
       \cup IndexTypeProblems(s)
       \cup (IF Absent(s, "indexType") THEN {} ELSE IfNot(HasStr(s, "indexData"), {<<"indexData">>}))
TransformProblems(t) ==
  IF ~IsObj(t) THEN Nameless
  ELSE IfNot(HasStr(t, "name"), {<<"name">>})
       \cup (IF ~HasStr(t, "transform") THEN {<<"transform">>}
             ELSE IfNot(Named(TransformSeq, Member(t, "transform").v) # "Invalid", {<<Member(t, "transform").v>>}))
Problems(d) ==
  IF ~IsObj(d) THEN Nameless
  ELSE (IF HasMember(d, "vertexFormat") THEN OutFormatProblems(Member(d, "vertexFormat")) ELSE {<<"vertexFormat">>})
       \cup IndexTypeProblems(d) \cup PrimProblems(d)
       \cup (IF ~HasMember(d, "vertexStreams") THEN {<<"vertexStreams">>}
             ELSE LET s == Member(d, "vertexStreams") IN
                  IF ~IsArr(s) \/ s.v = <<>> THEN Nameless ELSE Each(s, StreamProblems))
       \cup (IF ~HasMember(d, "vertexTransforms") THEN {}
             ELSE LET t == Member(d, "vertexTransforms") IN IF ~IsArr(t) THEN Nameless ELSE Each(t, TransformProblems))

-----------------------------------------------------------------------------
(* Where a text stops being JSON: first the start of the token at fault,   *)
(* then the first byte after which nothing can make the text well-formed   *)
(* (one past the end for texts that only stop too early).                  *)
LOCAL Inside == {"str", "esc", "u1", "u2", "u3", "u4", "neg", "zero", "int", "dot", "frac", "e", "esign", "exp", "lit"}
LOCAL Walk(s, c) ==
  IF s.p.q = "bad" THEN s
  ELSE LET p == PdaStep(s.p, c) IN
       [p |-> p, i |-> s.i + 1,
        tok |-> IF s.p.q \notin Inside /\ p.q \in Inside THEN s.i + 1 ELSE IF s.p.q \in Inside /\ p.q \in Inside \cup {"bad"} THEN s.tok ELSE 0]
Fault(text) ==
  LET w == FoldLeft(Walk, [p |-> PdaStart, i |-> 0, tok |-> 0], text)
      at == IF w.p.q = "bad" THEN w.i ELSE Len(text) + 1
      tok == IF w.tok # 0 THEN w.tok ELSE at
  IN  [from |-> tok, to |-> at]
\* Line and column of a byte, both counted from 1.
LineOf(text, i) == 1 + Cardinality({k \in 1..(i - 1) : text[k] = 10})
ColumnOf(text, i) ==
  LET B == {k \in 1..(i - 1) : text[k] = 10}
  IN  i - (IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k)
Place(text, i) == ":" \o ToString(LineOf(text, i)) \o ":" \o ToString(ColumnOf(text, i)) \o ":"
LocatedAt(m, file, text) ==
  LET f == Fault(text) IN \E i \in f.from..f.to : StartsWith(m, file \o Place(text, i))
=============================================================================
