------------------------------ MODULE TraceTool ------------------------------
(***************************************************************************)
(* Judges recorded runs of the tool.  ref is what the library produced for *)
(* the same input in the recording harness; doc the parsed document, with  *)
(* every data string's characters (codes), its bytes if it is base64 (raw) *)
(* and the content of the file of that name (file, inside).                *)
(***************************************************************************)
EXTENDS Result, Base64, Says, IOUtils, Json, TLC
TL == INSTANCE Tool
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

Prefix64 == <<98, 97, 115, 101, 54, 52, 58>>
\* Data strings: short texts are decoded here, long ones by the recorder.
Carries(w, x, bytes) ==
  IF w.out = "embed"
  THEN IF x.codes # <<>>
       THEN LET t == SubSeq(x.codes, 8, Len(x.codes)) IN
            SubSeq(x.codes, 1, 7) = Prefix64 /\ Canonical64(t) /\ Decode64(t) = bytes
       ELSE x.raw.ok /\ x.raw.bytes = bytes
  ELSE x.inside /\ x.file.ok /\ x.file.bytes = bytes

\* Long strings of bytes are all recorded in the same way as a length and digests of their pieces.
\* Byte k of an index, the marker being -1.
IndexByte(i, k) ==
  IF i = -1 THEN 255
  ELSE CASE k = 0 -> i % 256 [] k = 1 -> (i \div 256) % 256 [] k = 2 -> (i \div 65536) % 256 [] k = 3 -> i \div 16777216
BufBytes(b) ==
  LET n == IF b.ty = "UInt16" THEN 2 ELSE 4
  IN  IF "packed" \in DOMAIN b THEN b.packed
      ELSE [k \in 1..(n * Len(b.i)) |-> IndexByte(b.i[(k - 1) \div n + 1], (k - 1) % n)]

DistinctFiles(d) ==
  LET names == [i \in 1..Len(The(d, "vertices").v) |-> The(The(d, "vertices").v[i], "vertexData").path]
               \o (IF MemberCount(d, "indexBuffers") = 0 THEN <<>>
                   ELSE [i \in 1..Len(The(d, "indexBuffers").v) |-> The(The(d, "indexBuffers").v[i], "indexData").path])
  IN  \A i, k \in 1..Len(names) : i # k => names[i] # names[k]

WholeDoc(w, d, ref) ==
  /\ Stated(d, ref.out, ref.bounds, QInt(ref.vcount), ref.itype,
            [i \in 1..Len(ref.bufs) |-> [c |-> QInt(ref.bufs[i].c), b |-> QInt(ref.bufs[i].b)]],
            LAMBDA i, x : Carries(w, x, ref.verts[i]), LAMBDA i, x : Carries(w, x, BufBytes(ref.bufs[i])))
  /\ w.out = "dir" => DistinctFiles(d)

\* The world as the specification sees it: a library call that was refused is a bad step too.
World(ev) ==
  LET f == {ev.w.faults[i] : i \in 1..Len(ev.w.faults)}
      r == IF ~ev.hasref THEN {}
           ELSE IF ~(\A i \in 1..Len(ev.ref.oks) : ev.ref.oks[i]) THEN {<<"add", 1, "library">>}
           ELSE IF ~AllFin(ev.ref.bounds) THEN {<<"result", 0, "notFinite">>} ELSE {}
  IN  [ev.w EXCEPT !.faults = f \cup r]

RunJudge(s, ev) ==
  LET w == World(ev)
      whole == ev.so = "json" /\ ev.hasref /\ WholeDoc(w, ev.doc, ev.ref)
      doc == IF ev.so = "none" THEN "none" ELSE IF ev.so = "json" THEN "whole" ELSE "partial"
  IN  /\ TL!OutcomeOk(w, ev.exit, ev.said, doc, TL!Named(w))
      /\ ev.exit = 0 /\ ~w.help => whole

\* What has to be said about a fault: every one of some texts in one line.  nm holds the names used: of the
\* input, the output directory, every stream's data (v, i) and elements (fmts), and an unknown argument.
Texts(f, nm) ==
  LET end(t) == t \o "'"
      quoted(t) == "'" \o t \o "'"
      file(x) == end("/" \o x \o "." \o ToString(f[2] - 1) \o ".dat")
  IN  CASE f[1] = "args" -> IF f[3] = "unknown" THEN {{quoted(nm.arg)}} ELSE IF f[3] = "noInput" THEN {{"--input"}} ELSE {{"--output"}}
        [] f[1] = "config" -> {{nm.input}}
        [] f[1] = "vload" -> IF f[3] \in {"badBase64", "cutBase64", "size"} THEN {{nm.input, "ertex data"}, {nm.input, "vertex"}} ELSE {{nm.input, end(nm.v[f[2]])}}
        [] f[1] = "iload" -> IF f[3] \in {"badBase64", "cutBase64", "size"} THEN {{nm.input, "ndex data"}, {nm.input, "index"}} ELSE {{nm.input, end(nm.i[f[2]])}}
        [] f[1] = "add" -> IF f[3] = "range" THEN {{nm.input, quoted(nm.fmts[f[2]][k])} : k \in 1..Len(nm.fmts[f[2]])} ELSE {{nm.input}}
        [] f[1] \in {"transforms", "convert"} -> {{nm.input, quoted("nobody")}}
        [] f[1] = "mkdir" -> {{nm.out}}
        [] f[1] = "vwrite" -> {{nm.out, file("vertices")}}
        [] f[1] = "iwrite" -> {{nm.out, file("indices")}}
        [] f[1] = "stdout" -> {{"stdout"}}
        [] OTHER -> {{}}
\* A run that fails names at least one of the things that are wrong.
SaysJudge(ev) ==
  "names" \in DOMAIN ev /\ ev.exit = 1 =>
    \E i \in 1..Len(ev.w.faults) : \E t \in Texts(ev.w.faults[i], ev.names) : \E k \in 1..Len(ev.lines) :
      \A x \in t : HasText(ev.lines[k], x)
Judged(s, ev) == IF PROP = "C28" THEN SaysJudge(ev) ELSE RunJudge(s, ev)

INSTANCE TraceDriver WITH Start <- 0, Judge <- Judged, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
