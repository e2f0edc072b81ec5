----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Single values written and read.  The state is the last event of the     *)
(* scenario, to compare the order of codes.                                *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

Finite4(v) == \A i \in 1..4 : IsFin(v[i])
Q4(v) == [i \in 1..4 |-> QOfDouble(v[i])]
\* One double rounding of the value itself.
Tiny(q) == QScale2(QAbs(q), -50)

DecJudge(ev) ==
  /\ ev.ok = ~NoEncoding(ev.l, ev.t)
  /\ ev.same
  /\ ev.ok => DecodedOk(ev.l, ev.t, ev.bytes, ev.val)

EncCommon(ev) ==
  /\ ev.ok = ~NoEncoding(ev.l, ev.t)
  /\ ev.guard
  /\ ev.rep
  /\ ~ev.ok => ev.untouched

EncJudge(ev) ==
  /\ EncCommon(ev)
  /\ ev.ok /\ Finite4(ev.v) =>
       LET q == Q4(ev.v) IN EncodedAllOk(ev.l, ev.t, ev.out, q, [i \in 1..4 |-> IF TakenOver(ev.l, ev.t) THEN QZero ELSE Tiny(q[i])])

\* Floats with infinities keep them where the format has them.
RtJudge(ev) ==
  /\ ev.ok /\ ev.ok2 /\ ev.same
  /\ IF SharedExp(ev.l) \/ (ev.t = "Float" /\ ~AllFinite(ev.l, ev.t, ev.bytes))
     THEN HasNaN(ev.l, ev.t, ev.bytes)
          \/ (PackedFloat(ev.l) /\ ~AllFinite(ev.l, ev.t, ev.bytes))    \* infinities saturate
          \/ SameValues(ev.l, ev.t, ev.bytes, ev.back)
     ELSE IF ev.t \in {"UInt", "SInt"} /\ Comps[ev.l][1].w = 64
     THEN LET q == [i \in 1..4 |-> Decode(ev.l, ev.t, ev.bytes, i).q]
              \* The nearest doubles of the code, which exceed its range by at most one.
          IN  EncodedAllOk(ev.l, ev.t, ev.back, q, [i \in 1..4 |-> QScale2(QAbs(q[i]), -53)])
     ELSE ev.back = ev.bytes

\* Larger values never get smaller codes (the shared exponent only for equal components).
Equal3(v) == v[1] = v[2] /\ v[2] = v[3]
OrderJudge(s, ev) ==
  IF s = <<>> THEN TRUE ELSE
  LET a == s[1] IN
  (a.l = ev.l /\ a.t = ev.t /\ Finite4(a.v) /\ Finite4(ev.v) /\ a.ok /\ ev.ok
   /\ (SharedExp(ev.l) => Equal3(a.v) /\ Equal3(ev.v))) =>
    \A i \in 1..Len(Comps[ev.l]) :
      LET c == QCmp(QOfDouble(a.v[i]), QOfDouble(ev.v[i]))
          ka == Decode(ev.l, ev.t, a.out, i)
          kb == Decode(ev.l, ev.t, ev.out, i)
          rank(k) == IF k.k = "inf" THEN (IF k.q.s = 1 THEN -1 ELSE 1) ELSE 0
          ge == rank(kb) > rank(ka) \/ (rank(kb) = rank(ka) /\ (rank(ka) # 0 \/ QLe(ka.q, kb.q)))
          le == rank(ka) > rank(kb) \/ (rank(kb) = rank(ka) /\ (rank(ka) # 0 \/ QLe(kb.q, ka.q)))
      IN  /\ ka.k # "nan" /\ kb.k # "nan"
          /\ c <= 0 => ge
          /\ c >= 0 => le

BoundJudge(ev) ==
  /\ EncCommon(ev)
  /\ (ev.ok /\ Finite4(ev.v) /\ Finite4(ev.mn) /\ Finite4(ev.mx)) =>
     LET v == Q4(ev.v) mn == Q4(ev.mn) mx == Q4(ev.mx)
         n == Len(Comps[ev.l])
         \* Bounds the caller must provide: in order, with a difference that is a double.
         usable(i) == QCmp(mn[i], mx[i]) <= 0 /\ CmpMag(QSub(mx[i], mn[i]), QPow2(1023)) <= 0
         u(i) == IF TakenOver(ev.l, ev.t) THEN QZero
                 ELSE IF ~Normalized(ev.t) THEN Tiny(v[i])
                 ELSE IF QCmp(mn[i], mx[i]) >= 0 THEN QZero
                 ELSE LET range == QSub(mx[i], mn[i])
                          mag == QAdd(QMax(QAbs(mn[i]), QAbs(mx[i])), QAbs(v[i]))
                      IN  QMul(Eps, QAdd(QOne, QDiv(mag, range)))
     IN  IF ~Normalized(ev.t)
         THEN EncodedAllOk(ev.l, ev.t, ev.out, v, [i \in 1..4 |-> u(i)])
         ELSE \A i \in 1..n : usable(i) =>
              LET c == Comps[ev.l][i]
                  code == IF ev.t = "UNorm" THEN CodeN(ev.out, c) ELSE OffsetN(CodeN(ev.out, c), c.w)
              IN  \* The position between the bounds, to the nearest step.
                  /\ EncodeOk(ev.l, ev.t, ev.out, i, Bounded(ev.t, v[i], mn[i], mx[i], i), u(i))
                  \* The ends are exact.
                  /\ QCmp(mn[i], mx[i]) < 0 =>
                       /\ QCmp(v[i], mn[i]) <= 0 => code = <<>>
                       /\ QCmp(v[i], mx[i]) >= 0 => code = MaxN(c.w)

CodecJudge(s, ev) ==
  CASE ev.op = "dec" -> DecJudge(ev)
    [] ev.op = "enc" -> IF PROP = "C15" THEN OrderJudge(s, ev) ELSE EncJudge(ev)
    [] ev.op = "rt" -> RtJudge(ev)
    [] ev.op = "encb" -> BoundJudge(ev)
    [] OTHER -> FALSE
CodecAfter(s, ev) == IF ev.op = "enc" /\ PROP = "C15" THEN <<ev>> ELSE <<>>

INSTANCE TraceDriver WITH Start <- <<>>, Judge <- CodecJudge, After <- CodecAfter
Spec == DriverSpec
=============================================================================
