-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command line tool as a set of steps with dependencies, any of which *)
(* may fail because of what the world w holds.  The order of independent   *)
(* steps is left open.                                                     *)
(*                                                                         *)
(* w: in "file"/"stdin", out "embed"/"dir", ns input streams, idx whether  *)
(* they are indexed, nv output streams, ni index buffers, tr whether there *)
(* are transforms, help, faults a set of <<step, number, kind>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

At(n, K) == {<<n, k>> : k \in K}
One(n) == {<<n, 0>>}
Steps(w) ==
  One("args") \cup One("config") \cup One("construct") \cup One("convert") \cup One("result") \cup One("stdout")
  \cup At("vload", 1..w.ns) \cup At("add", 1..w.ns)
  \cup (IF w.idx THEN At("iload", 1..w.ns) ELSE {})
  \cup (IF w.tr THEN One("transforms") ELSE {})
  \cup (IF w.out = "dir" THEN One("mkdir") \cup At("vwrite", 1..w.nv) \cup At("iwrite", 1..w.ni) ELSE {})

\* What must have been done before a step.
Deps(w, s) ==
  LET all(N) == {x \in Steps(w) : x[1] \in N} IN
  CASE s[1] = "args" -> {}
    [] s[1] \in {"config", "mkdir"} -> One("args")
    [] s[1] \in {"construct", "vload", "iload"} -> One("config")
    [] s[1] = "add" -> {x \in Steps(w) : x[1] \in {"vload", "iload"} /\ x[2] = s[2]} \cup One("construct")
                       \cup (IF s[2] > 1 THEN {<<"add", s[2] - 1>>} ELSE {})
    [] s[1] = "transforms" -> One("construct")
    [] s[1] = "convert" -> all({"add", "transforms"})
    [] s[1] \in {"vwrite", "iwrite"} -> One("convert") \cup One("mkdir")
    [] s[1] = "result" -> One("convert")
    [] s[1] = "stdout" -> all({"result", "vwrite", "iwrite"})

\* What can be wrong with a step.
Kinds(w, s) ==
  CASE s[1] = "args" -> {"unknown", "noInput", "noOutput"}
    [] s[1] = "config" -> {"empty", "malformed", "truncated", "badEnum", "badMember"}
                          \cup (IF w.in = "file" THEN {"missing", "directory", "unreadable", "notDirectory"} ELSE {})
    [] s[1] \in {"vload", "iload"} -> {"missing", "directory", "unreadable", "badBase64", "cutBase64", "size", "loop"}
    [] s[1] = "add" -> (IF s[2] > 1 THEN {"count"} ELSE {}) \cup (IF w.idx THEN {"range"} ELSE {})
    [] s[1] = "transforms" -> {"unknown"}
    [] s[1] = "convert" -> {"noSource"}
    [] s[1] = "mkdir" -> {"file", "parentFile", "sealed", "loop", "long"}
    [] s[1] \in {"vwrite", "iwrite"} -> {"directory", "full", "sealed", "loop"}
                          \cup (IF s = <<"vwrite", 1>> THEN {"quota", "sealedDir"} ELSE {})
    [] s[1] = "result" -> IF w.ni < 2 THEN {"notFinite"} ELSE {}  \* the large worlds hold integers
    [] s[1] = "stdout" -> {"full", "closed", "pipe"}
    [] OTHER -> {}

Faults(w) == UNION {{<<s[1], s[2], k>> : k \in Kinds(w, s)} : s \in Steps(w)}
Struck(w, s) == \E f \in w.faults : f[1] = s[1] /\ f[2] = s[2]
Named(w) == {s \in Steps(w) : s[1] \in {"vwrite", "iwrite"}}

\* What a finished run may look like: files lists the files of the document that are whole.
OutcomeOk(w, exit, said, doc, whole) ==
  /\ exit \in {0, 1}
  /\ exit = 0 <=> (w.help \/ w.faults = {})
  /\ exit = 0 /\ ~w.help => doc = "whole" /\ whole = Named(w)
  /\ exit = 0 /\ w.help => doc = "none"
  /\ exit = 1 => said /\ doc \in (IF Struck(w, <<"stdout", 0>>) THEN {"none", "partial"} ELSE {"none"})
=============================================================================
