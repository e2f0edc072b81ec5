----------------------------- MODULE TraceIndex -----------------------------
EXTENDS Index, TLC, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

NoData(s, ev) == s.t = "None" \/ ("null" \in DOMAIN ev /\ ev.null)
IdxAfter(s, ev) ==
  CASE ev.op = "new" -> [t |-> ev.itype, m |-> ev.data]
    [] ev.op = "bnew" -> [t |-> ev.itype, m |-> <<>>]
    [] ev.op = "bset" -> [s EXCEPT !.m = Append(@, <<ev.i, ev.val>>)]
    [] ev.op = "set" /\ ~NoData(s, ev) -> [s EXCEPT !.m = IWrite(s.t, s.m, ev.i, ev.val)]
    [] OTHER -> s
IdxJudge(s, ev) ==
  CASE ev.op = "new" -> /\ ev.size = ISize(ev.itype)
                        /\ ev.itype # "None" => ev.max = IMax(ev.itype) /\ ev.restart = IRestart(ev.itype)
    [] ev.op = "get" -> /\ ev.v = IF NoData(s, ev) THEN (IF "def" \in DOMAIN ev THEN ev.def ELSE <<65535, 65535>>)
                                  ELSE IRead(s.t, s.m, ev.i)
                        /\ ev.mem = s.m
    [] ev.op = "set" -> /\ ev.ok = ~NoData(s, ev)
                        \* Only values that fit have a meaning.
                        /\ ev.mem = IdxAfter(s, ev).m
    \* Where the system has no address space for the array there is nothing to judge.
    [] ev.op \in {"bnew", "bset", "bget", "bpeek"} ->
         ev.there => CASE ev.op = "bset" -> ev.ok
                       [] ev.op = "bget" -> ev.v = BRead(s.m, ev.i)
                       [] ev.op = "bpeek" -> ev.vs = [k \in 1..Len(ev.at) |-> BRead(s.m, ev.at[k])]
                       [] OTHER -> TRUE
    [] OTHER -> FALSE

INSTANCE TraceDriver WITH Start <- [t |-> "None", m |-> <<>>], Judge <- IdxJudge, After <- IdxAfter
Spec == DriverSpec
=============================================================================
