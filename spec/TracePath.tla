------------------------------ MODULE TracePath ------------------------------
EXTENDS Path, TLC, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
PathJudge(s, ev) ==
  /\ ev.abs = IsAbs(ev.a)
  /\ ev.file = FileName(ev.a)
  /\ ev.dir = Parent(ev.a)
  /\ ev.join = Join(ev.a, ev.b)
  /\ Names(ev.re) = Names(ev.a)
INSTANCE TraceDriver WITH Start <- 0, Judge <- PathJudge, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
