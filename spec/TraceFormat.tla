----------------------------- MODULE TraceFormat -----------------------------
(* Two formats side by side: state <<f0, f1>>.                             *)
EXTENDS Format, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

Elem(ev) == [n |-> ev.n, l |-> ev.l, t |-> ev.t]
FmtAfter(s, ev) ==
  LET k == ev.w + 1 IN
  CASE ev.op = "append" -> [s EXCEPT ![k] = Appended(@, Elem(ev))]
    [] ev.op = "fill" -> [s EXCEPT ![k] = [i \in 1..ev.k |-> [n |-> "e" \o ToString(i - 1), l |-> ev.l, t |-> ev.t]]]
    [] ev.op = "clear" -> [s EXCEPT ![k] = <<>>]
    [] ev.op = "copy" -> [s EXCEPT ![3 - k] = s[k]]
    [] OTHER -> s
FmtJudge(s, ev) ==
  LET k == ev.w + 1
      s2 == FmtAfter(s, ev)
  IN  /\ ev.res = IF ev.op = "append" THEN AppendResult(s[k], Elem(ev)) ELSE "ok"
      /\ ev.op = "find" => ev.pos = FPos(s[k], ev.n) /\ ev.pos2 = ev.pos
      /\ ev.f[1] = Described(s2[1]) /\ ev.f[2] = Described(s2[2])
      /\ ev.agree
      /\ ev.c01 = FContains(s2[1], s2[2]) /\ ev.c10 = FContains(s2[2], s2[1])
      /\ ev.eq = (s2[1] = s2[2]) /\ ev.ne = ~ev.eq

INSTANCE TraceDriver WITH Start <- <<<<>>, <<>>>>, Judge <- FmtJudge, After <- FmtAfter
Spec == DriverSpec
=============================================================================
