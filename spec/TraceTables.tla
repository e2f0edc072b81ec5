----------------------------- MODULE TraceTables -----------------------------
EXTENDS Tables, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

TabJudge(s, ev) ==
  CASE ev.op = "name" -> /\ ev.layout = LayoutNamed(ev.n) /\ ev.type = TypeNamed(ev.n) /\ ev.prim = PrimNamed(ev.n)
    [] ev.op = "null" ->
         /\ ev.layout = "Invalid" /\ ev.type = "Invalid" /\ ev.prim = "Invalid"
         /\ ev.ln = "(null)" /\ ev.lc = "(null)" /\ ev.tn = "(null)" /\ ev.pn = "(null)"
         /\ ev.size = 0 /\ ev.nl = Len(LayoutSeq) /\ ev.nt = Len(TypeSeq) /\ ev.np = Len(PrimSeq)
    [] ev.op = "layout" -> /\ ev.name = ev.l /\ ev.color = ColorSeq[LayoutPos(ev.l)] /\ ev.size = LayoutSize(ev.l)
    [] ev.op = "type" -> ev.name = ev.t
    [] ev.op = "prim" -> ev.name = ev.p
    [] ev.op = "valid" -> ev.ok = ElementValid(ev.l, ev.t)
    [] ev.op = "count" -> ev.ok = CountFitsPair(ev.p, ev.c, ev.patch)
    [] OTHER -> FALSE

INSTANCE TraceDriver WITH Start <- 0, Judge <- TabJudge, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
