----------------------------- MODULE TraceValue -----------------------------
(***************************************************************************)
(* Vertex values in three registers and bounds grown value by value: the   *)
(* state is what the registers hold and the range of the values so far.    *)
(***************************************************************************)
EXTENDS Value4, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

ValAfter(s, ev) ==
  CASE ev.op = "grow" -> [s EXCEPT !.g = Grown(@, ev.v)]
    [] ev.op = "growr" -> [s EXCEPT !.g = Grown(@, s.r[ev.a])]
    [] ev.op = "make" -> [s EXCEPT !.r[ev.a] = Filled(ev.v)]
    [] ev.op = "set" -> [s EXCEPT !.r[ev.a][ev.i + 1] = ev.x]
    [] ev.op \in {"copy", "init"} -> [s EXCEPT !.r[ev.a] = s.r[ev.b]]
    [] OTHER -> s
ValJudge(s, ev) ==
  LET n == ValAfter(s, ev) IN
  /\ ev.op \in {"grow", "growr"} => RangeIs(n.g, ev.mn, ev.mx)
  /\ ev.op = "grow" => Same4(ev.def, Filled(<<>>))
  /\ ev.op = "cmp" => /\ ev.eq = Equal4(s.r[ev.a], s.r[ev.b])
                      /\ ev.ne = ~ev.eq
  /\ ev.op # "grow" => \A k \in 1..3 : Same4(ev.regs[k], n.r[k])

INSTANCE TraceDriver WITH Start <- [g |-> NoRange, r |-> [k \in 1..3 |-> Filled(<<>>)]], Judge <- ValJudge, After <- ValAfter
Spec == DriverSpec
=============================================================================
