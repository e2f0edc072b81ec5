----------------------------- MODULE TraceConfig -----------------------------
(***************************************************************************)
(* Configuration texts.  "bytes" holds the text of documents the automaton *)
(* is to judge (absent for huge ones, which the generator knows to be      *)
(* malformed or without the required members); "doc" the parsed document   *)
(* of texts written from one.                                              *)
(***************************************************************************)
EXTENDS Blame, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

CfgJudge(s, ev) ==
  LET wf == IF "bytes" \in DOMAIN ev THEN WellFormed(ev.bytes) ELSE ev.wf
      has == "doc" \in DOMAIN ev
      expect == IF has /\ wf = "yes" THEN Acceptable(ev.doc) ELSE FALSE
  IN  /\ IF ev.ok THEN ev.nerr = 0 ELSE ev.nerr > 0
      /\ wf = "no" => ~ev.ok
      \* The text was written from the document, so the automaton accepts it.
      /\ has => wf = "yes"
      /\ has => ev.ok = expect
      /\ "refused" \in DOMAIN ev => ~ev.ok
      /\ has /\ expect /\ ev.ok => ev.cfg = Read(ev.doc)

\* The messages of a refusal; said is absent for huge texts.
BlameJudge(ev) ==
  "said" \in DOMAIN ev =>
  LET wf == WellFormed(ev.bytes) IN
  /\ ev.ok = (ev.said = <<>>)
  /\ wf = "no" /\ ~PdaRun(ev.bytes).vague => \E i \in 1..Len(ev.said) : LocatedAt(ev.said[i], "cfg", ev.bytes)
  /\ wf = "yes" /\ ~ev.ok => \A i \in 1..Len(ev.said) : StartsWith(ev.said[i], "cfg:")
  /\ wf = "yes" /\ ~ev.ok /\ "doc" \in DOMAIN ev => Justified(ev.said, Problems(ev.doc))
Judged(s, ev) == IF PROP = "C28" THEN BlameJudge(ev) ELSE CfgJudge(s, ev)

INSTANCE TraceDriver WITH Start <- 0, Judge <- Judged, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
