------------------------------ MODULE TraceArgs ------------------------------
(***************************************************************************)
(* Recorded command lines.  configs maps the names of good configuration   *)
(* files to the number of vertices of their result ("" for stdin), so that *)
(* count tells which one was read; went is where the result's data is      *)
(* ("" in the document itself), touched every path that is new.            *)
(***************************************************************************)
EXTENDS Args, Config, Path, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

OptionWords == {"help", "input", "output", "h", "i", "o"}
ConfigWords == {"vertexFormat", "indexType", "primitiveType", "patchPoints", "vertexStreams", "vertexTransforms", "name", "layout", "type",
                "vertexData", "indexData", "transform", "base64", "stdin"}
ResultWords == {"vertices", "offset", "minValue", "maxValue", "vertexStride", "vertexCount", "indexBuffers", "indexCount", "baseVertex"}
HelpWords == OptionWords \cup ConfigWords \cup ResultWords \cup Range(LayoutSeq) \cup Range(TypeSeq) \cup Range(PrimSeq)
             \cup Range(TransformSeq) \cup Range(IndexSeq)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

ArgsJudge(s, ev) ==
  LET r == ArgRun(ev.args)
      good == {ev.configs[i].n : i \in 1..Len(ev.configs)}
      count == ev.configs[CHOOSE i \in 1..Len(ev.configs) : ev.configs[i].n = r.input].c
  IN
  CASE r.v = "help" ->
         /\ ev.exit = 0 /\ ev.so = "text" /\ ev.touched = <<>> /\ ~ev.said
         /\ HelpWords \subseteq Range(ev.words)
         \* The usage line names the program as it was called.
         /\ StartsWith(ev.first, <<85, 115, 97, 103, 101, 58, 32>> \o FileName(ev.arg0))
    [] r.v = "error" -> ev.exit = 1 /\ ev.so = "none" /\ ev.said /\ ev.touched = <<>>
    \* No configuration of that name, or a file where the output directory should be.
    [] r.input \notin good \/ r.output \in Range(ev.files) -> ev.exit = 1 /\ ev.so = "none" /\ ev.said
    [] OTHER ->
         /\ ev.exit = 0 /\ ev.so = "json" /\ ev.count = count /\ ev.went = r.output
         \* Nothing but the output directory and what belongs into it is touched.
         /\ Range(ev.touched) = (IF r.output = "" THEN {} ELSE {r.output, r.output \o "/vertices.0.dat", r.output \o "/indices.0.dat"})
                                \ Range(ev.there)

INSTANCE TraceDriver WITH Start <- 0, Judge <- ArgsJudge, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
