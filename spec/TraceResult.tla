----------------------------- MODULE TraceResult -----------------------------
EXTENDS Result, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

\* Counts are recorded as <<high, low>>, 16 bits in low; they may need 32 bits.
QPair(p) == QAdd(QScale2(QInt(p[1]), 16), QInt(p[2]))
ResJudge(s, ev) ==
  IF AllFin(ev.bounds)
  THEN /\ ev.wf /\ ~ev.empty
       /\ Stated(ev.doc, ev.out, ev.bounds, QPair(ev.vcount), ev.itype,
                 [i \in 1..Len(ev.bufs) |-> [c |-> QPair(ev.bufs[i].c), b |-> QPair(ev.bufs[i].b)]],
                 LAMBDA i, x : x.v = ev.vdata[i], LAMBDA i, x : x.v = ev.bufs[i].d)
  ELSE \* No JSON number states these bounds.
       ev.wf \/ ev.empty

INSTANCE TraceDriver WITH Start <- 0, Judge <- ResJudge, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
