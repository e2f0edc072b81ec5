--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The converter's protocol: what every call does to the converter's       *)
(* abstract state and whether it must succeed.  Used by MC_Api (every      *)
(* call sequence over a small alphabet) and by TraceConv (the recorded     *)
(* calls of the real library).                                             *)
(*                                                                         *)
(* A format is a sequence of [n |-> name, l |-> layout, t |-> type].       *)
(***************************************************************************)
EXTENDS Codec, Geometry

Names(fmt) == {fmt[j].n : j \in 1..Len(fmt)}
Pos(fmt, n) == CHOOSE j \in 1..Len(fmt) : fmt[j].n = n
Has(fmt, n) == \E j \in 1..Len(fmt) : fmt[j].n = n

SizeOf == [l \in Layouts |-> LayoutSize(l)]
StrideOf(fmt) == FoldLeft(LAMBDA a, e : a + SizeOf[e.l], 0, fmt)
OffsetOf(fmt, j) == StrideOf(SubSeq(fmt, 1, j - 1))

\* 32-bit values are pairs of halves.
PairLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
PairInt(a) == IF a[1] >= 16384 THEN 1073741824 ELSE a[1] * 65536 + a[2]

DefaultMax(itype) == IF itype = "UInt16" THEN <<0, 65534>> ELSE <<65535, 65534>>
RestartPair(itype) == IF itype = "UInt16" THEN <<0, 65535>> ELSE <<65535, 65535>>
EffMax(cfg) == IF cfg.max = <<-1, -1>> THEN DefaultMax(cfg.itype) ELSE cfg.max

\* cfg: [out, itype, prim, patch, max]
ConfigOk(cfg) ==
  /\ cfg.out # <<>>
  /\ \A i \in 1..Len(cfg.out) : cfg.out[i] # <<>>
  /\ cfg.prim \in Prims
  /\ cfg.prim = "PatchList" => cfg.patch > 0
  /\ cfg.itype # "None" =>
       LET m == EffMax(cfg) IN
       /\ PairInt(m) >= MinCount(cfg.prim, cfg.patch) - 1
       /\ IF cfg.prim \in RestartPrims
          THEN PairLe(m, RestartPair(cfg.itype)) /\ m # RestartPair(cfg.itype)
          ELSE PairLe(m, RestartPair(cfg.itype))

CountFits(prim, patch, n) ==
  IF prim \in RestartPrims THEN n = 0 \/ n >= MinCount(prim, patch)
  ELSE n % Stride(prim, patch) = 0

-----------------------------------------------------------------------------
(* The abstract converter. *)
NoConv == [live |-> FALSE]

NewConv(cfg) ==
  LET ok == ConfigOk(cfg) IN
  [live |-> TRUE, ok |-> ok, cfg |-> cfg, n |-> -1, streams |-> <<>>, done |-> FALSE,
   tr |-> [i \in 1..Len(cfg.out) |-> [j \in 1..Len(cfg.out[i]) |-> "Identity"]],
   ctr |-> <<>>]        \* the transforms in effect when converting

Supplied(cv) == UNION {Names(cv.streams[k].fmt) : k \in 1..Len(cv.streams)}
Wanted(cv) == UNION {Names(cv.cfg.out[i]) : i \in 1..Len(cv.cfg.out)}
\* A stream: [fmt, itype, idx, vcount, data, buf]; idx holds -1 for the marker.
StreamCount(s) == IF s.itype = "None" THEN s.vcount ELSE Len(s.idx)

\* add: a stream plus nodata, noidx.
AddOk(cv, a) ==
  /\ cv.ok
  /\ ~a.nodata
  /\ ~(a.itype # "None" /\ a.noidx)
  /\ cv.n = -1 \/ cv.n = StreamCount(a)
  /\ CountFits(cv.cfg.prim, cv.cfg.patch, StreamCount(a))
  /\ (Names(a.fmt) \cap Wanted(cv)) \cap Supplied(cv) = {}

AfterAdd(cv, a) ==
  IF ~AddOk(cv, a) THEN cv
  ELSE [cv EXCEPT !.n = StreamCount(a),
                  !.streams = IF Names(a.fmt) \cap Wanted(cv) = {} THEN @ ELSE Append(@, a)]

IndexAt(s, p) == IF s.itype = "None" THEN p - 1 ELSE s.idx[p]
IsMark(cv, s, p) == cv.cfg.prim \in RestartPrims /\ s.itype # "None" /\ s.idx[p] = -1
HasMark(cv, p) == \E k \in 1..Len(cv.streams) : IsMark(cv, cv.streams[k], p)
OutOfRange(cv) ==
  \E k \in 1..Len(cv.streams) : LET s == cv.streams[k] IN
    s.itype # "None" /\ \E p \in 1..Len(s.idx) :
      ~IsMark(cv, s, p) /\ (s.idx[p] = -1 \/ s.idx[p] >= s.vcount)

ConvOk(cv) ==
  /\ cv.ok
  /\ ~cv.done
  /\ Wanted(cv) \subseteq Supplied(cv)
  /\ ~OutOfRange(cv)
  /\ cv.cfg.itype = "None" => \A p \in 1..cv.n : ~HasMark(cv, p)

\* The caller changes the indices of a buffer it handed over: what counts is what it holds when
\* converting.  buf names the caller's buffer; every stream added from it sees the change.
AfterPoke(cv, buf, idx) ==
  IF ~cv.live \/ cv.done THEN cv
  ELSE [cv EXCEPT !.streams = [k \in 1..Len(cv.streams) |->
          IF cv.streams[k].buf = buf THEN [cv.streams[k] EXCEPT !.idx = idx] ELSE cv.streams[k]]]

AfterConv(cv) == IF ConvOk(cv) THEN [cv EXCEPT !.done = TRUE, !.ctr = cv.tr] ELSE cv

\* The first output element with the name, searched stream by stream.
FirstAt(cv, name) ==
  LET S == {i \in 1..Len(cv.cfg.out) : Has(cv.cfg.out[i], name)}
  IN  IF ~cv.ok \/ S = {} THEN <<>>
      ELSE LET i == CHOOSE i \in S : \A k \in S : i <= k IN <<i, Pos(cv.cfg.out[i], name)>>

AfterTr(cv, at, t) == IF at = <<>> THEN cv ELSE [cv EXCEPT !.tr[at[1]][at[2]] = t]
=============================================================================
