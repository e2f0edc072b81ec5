------------------------------ MODULE TraceConv ------------------------------
(***************************************************************************)
(* Checks recorded histories of the real converter against the protocol    *)
(* (Api), the geometry (Geometry), the value formats (Codec) and, as a     *)
(* note only, the step-by-step model (ConverterModel).                     *)
(*                                                                         *)
(* Each scenario of the trace file is one behaviour: every recorded call   *)
(* is one step, and a step that breaks the property under test sets bad.   *)
(***************************************************************************)
EXTENDS Api, Chain, ConverterModel, Says, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES sc, l, cv, obs, bad
vars == <<sc, l, cv, obs, bad>>

Fld(ev, f, d) == IF f \in DOMAIN ev THEN ev[f] ELSE d

-----------------------------------------------------------------------------
(* Where an output element's value comes from. *)
SrcStream(c, name) == CHOOSE k \in 1..Len(c.streams) : Has(c.streams[k].fmt, name)
Src(c, i, j) ==
  LET name == c.cfg.out[i][j].n
      k == SrcStream(c, name)
      e == Pos(c.streams[k].fmt, name)
      f == c.streams[k].fmt
  IN  [k |-> k, l |-> f[e].l, t |-> f[e].t, off |-> OffsetOf(f, e), stride |-> StrideOf(f)]
\* One record per output element.
Sources(c) == [i \in 1..Len(c.cfg.out) |-> [j \in 1..Len(c.cfg.out[i]) |-> Src(c, i, j)]]
SrcBytes(c, s, p) ==
  LET at == IndexAt(c.streams[s.k], p) * s.stride + s.off
  IN  SubSeq(c.streams[s.k].data, at + 1, at + SizeOf[s.l])

\* Conversions that must keep the bytes: same format, no transform, one code per number.
SameFormat(s, e, tr) ==
  /\ s.l = e.l /\ s.t = e.t
  /\ tr = "Identity" \/ (tr = "Bounds" /\ ~Normalized(e.t))
KeepsBytes(s, e, tr, b) ==
  /\ SameFormat(s, e, tr)
  /\ ~SharedExp(s.l)
  /\ s.t \in {"UInt", "SInt"} => Comps[s.l][1].w < 64
  /\ s.t = "Float" => AllFinite(s.l, s.t, b)

Marked(c) == [p \in 1..c.n |-> HasMark(c, p)]

Exact(c, src) ==
  \A i \in 1..Len(c.cfg.out) : \A j \in 1..Len(c.cfg.out[i]) :
    /\ src[i][j].l = c.cfg.out[i][j].l /\ src[i][j].t = c.cfg.out[i][j].t
    /\ \A p \in 1..c.n : ~HasMark(c, p) =>
         KeepsBytes(src[i][j], c.cfg.out[i][j], c.ctr[i][j], SrcBytes(c, src[i][j], p))

\* The expected content of position p in an exact scenario.
InContent(c, src, p) ==
  FlattenSeq([i \in 1..Len(src) |-> FlattenSeq([j \in 1..Len(src[i]) |-> SrcBytes(c, src[i][j], p)])])

OutVerts(c, o) ==
  [v \in 1..o.vcount |->
    FlattenSeq([i \in 1..Len(c.cfg.out) |->
      LET s == StrideOf(c.cfg.out[i]) IN SubSeq(o.verts[i], (v - 1) * s + 1, v * s)])]

\* Every output stream holds exactly vcount vertices.
StreamsOk(c, o) ==
  /\ Len(o.verts) = Len(c.cfg.out)
  /\ \A i \in 1..Len(o.verts) : Len(o.verts[i]) = o.vcount * StrideOf(c.cfg.out[i])

MaxOf(c) == PairInt(EffMax(c.cfg))
Indexed(c) == c.cfg.itype # "None"

\* The output vertex of every position when positions correspond one to one, else <<>>.
Positions(c, o) ==
  IF ~Indexed(c) THEN [p \in 1..o.vcount |-> p]
  ELSE FlattenSeq([i \in 1..Len(o.bufs) |->
         [k \in 1..Len(o.bufs[i].i) |->
            IF o.bufs[i].i[k] = -1 THEN 0 ELSE o.bufs[i].i[k] + o.bufs[i].b + 1]])
Aligned(c, o) == ~Indexed(c) \/ Len(o.bufs) = 1 \/ c.cfg.prim \notin RestartPrims

InRange(c, o) ==
  \A i \in 1..Len(o.bufs) : \A k \in 1..Len(o.bufs[i].i) :
     o.bufs[i].i[k] = -1 \/ (o.bufs[i].i[k] >= 0 /\ o.bufs[i].b >= 0 /\
                             o.bufs[i].i[k] + o.bufs[i].b < o.vcount)

-----------------------------------------------------------------------------
(* Values. *)
Val(s, b, m) == Decode(s.l, s.t, b, m)

\* Order of decoded values, infinities included.
Rank(v) == IF v.k = "inf" THEN (IF v.q.s = 1 THEN -1 ELSE 1) ELSE 0
VLe(a, b) == IF Rank(a) # Rank(b) THEN Rank(a) < Rank(b) ELSE IF Rank(a) # 0 THEN TRUE ELSE QLe(a.q, b.q)
VMin(a, b) == IF VLe(a, b) THEN a ELSE b
VMax(a, b) == IF VLe(a, b) THEN b ELSE a

\* The positions whose value counts for an element: those without a marker in its stream.
Counted(c, s) == {p \in 1..c.n : ~IsMark(c, c.streams[s.k], p)}
\* The referenced values of a component, one per distinct vertex, without NaN.
ElemVals(c, s, m) ==
  LET at == {IndexAt(c.streams[s.k], p) : p \in Counted(c, s)}
      bytes(v) == SubSeq(c.streams[s.k].data, v * s.stride + s.off + 1, v * s.stride + s.off + SizeOf[s.l])
      all == {Val(s, bytes(v), m) : v \in at}
  IN  {v \in all : v.k # "nan"}
FoldVals(S, op(_, _)) ==
  LET q == SetToSeq(S) IN FoldLeft(op, q[1], q)

BoundsOf(c, s, m) ==
  LET S == ElemVals(c, s, m)
  IN  IF S = {} THEN [any |-> FALSE]
      ELSE [any |-> TRUE, mn |-> FoldVals(S, VMin), mx |-> FoldVals(S, VMax)]

\* One element of one position against the bytes found in the output.
ElemOk(c, s, e, tr, p, out, bds) ==
  LET b == SrcBytes(c, s, p)
      fin == \A m \in 1..4 : Val(s, b, m).k = "fin"
      bfin == tr = "Bounds" /\ Normalized(e.t) =>
                \A m \in 1..4 : bds[m].any /\ bds[m].mn.k = "fin" /\ bds[m].mx.k = "fin"
  IN  IF KeepsBytes(s, e, tr, b) THEN out = b
      ELSE fin /\ bfin =>
        LET r == [m \in 1..4 |-> Transformed(tr, e.t, Val(s, b, m).q, bds[m], m, HeldExactly(s.l, s.t) /\ TakenOver(e.l, e.t))]
        IN  EncodedAllOk(e.l, e.t, out, [m \in 1..4 |-> r[m].q], [m \in 1..4 |-> r[m].u])

\* Every element chosen by want(i, j) of every position, when positions are aligned.
AlignedOk(c, src, o, want(_, _)) ==
  LET at == Positions(c, o) IN
  /\ Len(at) = c.n
  /\ \A p \in 1..c.n : (at[p] = 0) <=> HasMark(c, p)
  /\ \A i \in 1..Len(src) : \A j \in 1..Len(src[i]) :
       want(i, j) =>
       LET s == src[i][j]
           e == c.cfg.out[i][j]
           off == OffsetOf(c.cfg.out[i], j)
           stride == StrideOf(c.cfg.out[i])
           tr == c.ctr[i][j]
           bds == [m \in 1..4 |-> IF tr = "Bounds" /\ Normalized(e.t) THEN BoundsOf(c, s, m) ELSE [any |-> FALSE]]
       IN  \A p \in 1..c.n :
             at[p] # 0 =>
               ElemOk(c, s, e, tr, p,
                      SubSeq(o.verts[i], (at[p] - 1) * stride + off + 1,
                             (at[p] - 1) * stride + off + SizeOf[e.l]), bds)

ContentOk(c, src, o, want(_, _)) ==
  LET in == [p \in 1..c.n |-> IF HasMark(c, p) THEN Restart ELSE InContent(c, src, p)]
  IN
  /\ StreamsOk(c, o)
  /\ InRange(c, o)
  /\ IF Exact(c, src)
     THEN IF Indexed(c)
          THEN GeometryOk(c.cfg.prim, c.cfg.patch, in, o.bufs, OutVerts(c, o))
          ELSE OutVerts(c, o) = in
     ELSE Aligned(c, o) => AlignedOk(c, src, o, want)

-----------------------------------------------------------------------------
(* The judgement of one event; c is the converter before it.               *)

\* Success and failure as specified, reported accordingly, inputs untouched.
Reported(c, ev, ok) ==
  /\ ev.ok = ok
  /\ (~Fld(ev, "q", FALSE)) => IF ok THEN ev.nerr = 0 ELSE ev.nerr > 0

AddOf(ev) == [fmt |-> ev.fmt, itype |-> ev.itype, idx |-> ev.idx, vcount |-> ev.vcount,
              data |-> ev.data, nodata |-> Fld(ev, "nodata", FALSE), noidx |-> Fld(ev, "noidx", FALSE),
              buf |-> Fld(ev, "buf", 0)]
CfgOf(ev) == [out |-> ev.out, itype |-> ev.itype, prim |-> ev.prim, patch |-> ev.patch, max |-> ev.max]

Expect(c, ev) ==
  CASE ev.op = "new" -> ConfigOk(CfgOf(ev))
    [] ev.op = "add" -> AddOk(c, AddOf(ev))
    [] ev.op = "conv" -> ConvOk(c)
    [] ev.op = "tr" -> ("name" \in DOMAIN ev => FirstAt(c, ev.name) # <<>>)
    [] OTHER -> TRUE

TrAt(c, ev) == IF "name" \in DOMAIN ev THEN FirstAt(c, ev.name) ELSE <<ev.si + 1, ev.ei + 1>>

After(c, ev) ==
  CASE ev.op = "new" -> [NewConv(CfgOf(ev)) EXCEPT !.live = TRUE]
    [] ev.op = "add" -> AfterAdd(c, AddOf(ev))
    [] ev.op = "conv" -> AfterConv(c)
    [] ev.op = "poke" -> AfterPoke(c, ev.buf, ev.idx)
    [] ev.op = "tr" -> IF Expect(c, ev) /\ c.ok THEN AfterTr(c, TrAt(c, ev), ev.t) ELSE c
    [] OTHER -> c

ReadBackOk(ev) ==
  LET cfg == CfgOf(ev) IN
  /\ ev.rb.itype = cfg.itype /\ ev.rb.prim = cfg.prim /\ ev.rb.patch = cfg.patch
  /\ (cfg.itype # "None" \/ cfg.max # <<-1, -1>>) => ev.rb.max = EffMax(cfg)
  /\ ev.rb.fmt /\ ev.rb.nfmt = Len(cfg.out)

TransformsOk(c2, ev) ==
  LET names == [i \in 1..Len(c2.cfg.out) |-> [j \in 1..Len(c2.cfg.out[i]) |->
                  LET at == FirstAt(c2, c2.cfg.out[i][j].n) IN c2.tr[at[1]][at[2]]]]
  IN  ev.trs = c2.tr /\ ev.trn = names /\ ev.tru = "Identity"

Converted(c) == c.live /\ c.ok /\ c.done
IsObs(ev) == ev.op = "obs"

NotConvertedObs(ev) == ev.bufs = <<>> /\ ev.vcount = 0

BoundsReported(c, src, o) ==
  /\ ~o.bunk
  /\ \A i \in 1..Len(src) : \A j \in 1..Len(src[i]) :
       LET pos == o.bpos[i][j]
           first == FirstAt(c, c.cfg.out[i][j].n)
           byName == o.bname[i][j]
           s == src[i][j]
       IN  /\ byName.ok
           /\ byName.mn = o.bpos[first[1]][first[2]].mn /\ byName.mx = o.bpos[first[1]][first[2]].mx
           /\ \A m \in 1..4 :
                LET b == BoundsOf(c, s, m)
                IN  b.any => /\ DoubleIs(b.mn, pos.mn[m], DecodeSlack(s.l, s.t, b.mn))
                             /\ DoubleIs(b.mx, pos.mx[m], DecodeSlack(s.l, s.t, b.mx))

\* The parts of an observation that a move or a second converter must reproduce.
View(o) == [bufs |-> o.bufs, vcount |-> o.vcount, verts |-> o.verts]

Identity(c, i, j) == c.ctr[i][j] = "Identity"

\* The second of two conversions, c0 with result o0 being the first: o shows what the first was given, as
\* far as the elements go that the first one's format holds.
Kept(c0, c, i, j) ==
  LET e == c.cfg.out[i][j]
      s == Src([c0 EXCEPT !.cfg = c.cfg], i, j)
      mid == FirstAt(c0, e.n)
      m == c0.cfg.out[mid[1]][mid[2]]
  IN  /\ e.l = s.l /\ e.t = s.t
      /\ Recovers(s.l, s.t, m.l, m.t, c0.ctr[mid[1]][mid[2]], c.ctr[i][j])
      /\ s.t = "Float" => \A p \in 1..c0.n : HasMark(c0, p) \/ AllFinite(s.l, s.t, SrcBytes(c0, s, p))
UndoneOk(c0, c, o) ==
  LET at == FlattenSeq([i \in 1..Len(c.cfg.out) |-> SelectSeq([j \in 1..Len(c.cfg.out[i]) |-> <<i, j>>], LAMBDA x : Kept(c0, c, x[1], x[2]))])
      src == [k \in 1..Len(at) |-> Src([c0 EXCEPT !.cfg = c.cfg], at[k][1], at[k][2])]
      in == [p \in 1..c0.n |-> IF HasMark(c0, p) THEN Restart
                              ELSE FlattenSeq([k \in 1..Len(at) |-> SrcBytes(c0, src[k], p)])]
      part(v, i, j) == LET at0 == (v - 1) * StrideOf(c.cfg.out[i]) + OffsetOf(c.cfg.out[i], j)
                       IN  SubSeq(o.verts[i], at0 + 1, at0 + SizeOf[c.cfg.out[i][j].l])
      out == [v \in 1..o.vcount |-> FlattenSeq([k \in 1..Len(at) |-> part(v, at[k][1], at[k][2])])]
      bufs == IF Indexed(c) THEN o.bufs ELSE <<[b |-> 0, i |-> [v \in 1..o.vcount |-> v - 1]]>>
  IN  at # <<>> => GeometryOk(c.cfg.prim, c.cfg.patch, in, bufs, out)
\* Converting a result the way it was converted has nothing left to do.
AgainOk(c0, o0, c, o) ==
  c0.cfg = c.cfg /\ Len(o0.bufs) <= 1 /\ Exact(c, Sources(c)) /\ (\A p \in 1..c.n : ~HasMark(c, p))
    => o.vcount = o0.vcount /\ Len(o.bufs) = Len(o0.bufs)

JudgeObs(c, ev, prev, other) ==
  LET src == Sources(c)
      in == [p \in 1..c.n |-> IF HasMark(c, p) THEN Restart ELSE <<1>>]
      i == Indexed(c)
  IN
  CASE PROP = "C01" -> ContentOk(c, src, ev, LAMBDA a, b : TRUE)
    [] PROP = "C02" ->
         /\ i => /\ IndicesOk(c.cfg.prim, c.cfg.patch, in, MaxOf(c), ev.bufs, ev.vcount)
                     \/ (c.n = 0 /\ Len(ev.bufs) <= 1 /\ \A k \in 1..Len(ev.bufs) : ev.bufs[k].i = <<>>)
                 /\ \A k \in 1..Len(ev.bufs) :
                      ev.bufs[k].ty = c.cfg.itype /\ ev.bufs[k].c = Len(ev.bufs[k].i)
         /\ ~i => ev.bufs = <<>>
         /\ StreamsOk(c, ev)
    [] PROP = "C03" ->
         /\ StreamsOk(c, ev)
         /\ IF ~i THEN ev.vcount = c.n
            ELSE InRange(c, ev) /\ SharingOk(c.cfg.prim, ev.bufs, OutVerts(c, ev))
                 /\ (Exact(c, src) =>
                     GeometryOk(c.cfg.prim, c.cfg.patch,
                       [p \in 1..c.n |-> IF HasMark(c, p) THEN Restart ELSE InContent(c, src, p)],
                       ev.bufs, OutVerts(c, ev)))
    [] PROP = "C04" ->
         i => SplitsOk(c.cfg.prim, c.cfg.patch, MaxOf(c), c.n, ev.bufs, [k \in 1..ev.vcount |-> k])
    [] PROP = "C05" -> ContentOk(c, src, ev, LAMBDA a, b : Identity(c, a, b))
    [] PROP = "C06" -> StreamsOk(c, ev) /\ InRange(c, ev) /\
         (Aligned(c, ev) => AlignedOk(c, src, ev, LAMBDA a, b : ~Identity(c, a, b)))
    [] PROP = "C07" -> "bpos" \in DOMAIN ev => BoundsReported(c, src, ev)
    [] PROP = "C15" -> ContentOk(c, src, ev, LAMBDA a, b : SameFormat(src[a][b], c.cfg.out[a][b], c.ctr[a][b]))
    [] PROP = "C23" -> /\ ev.old
                       /\ prev # <<>> => View(prev[1]) = View(ev)
                       /\ other # <<>> => View(other[1]) = View(ev)
    \* The same as earlier and as alone, and right.
    [] PROP = "C25" -> LET all(o) == [v |-> View(o), b |-> Fld(o, "bpos", <<>>), n |-> Fld(o, "bname", <<>>)] IN
                       /\ ev.old
                       /\ prev # <<>> => all(prev[1]) = all(ev)
                       /\ other # <<>> => all(other[1]) = all(ev)
                       \* What equals a result found right is right.
                       /\ prev = <<>> /\ other = <<>> =>
                            /\ StreamsOk(c, ev) /\ ContentOk(c, src, ev, LAMBDA a, b : TRUE)
                            /\ "bpos" \in DOMAIN ev => BoundsReported(c, src, ev)
    [] PROP = "C29" ->
         /\ ContentOk(c, src, ev, LAMBDA a, b : TRUE)
         /\ prev # <<>> => View(prev[1]) = View(ev)
         /\ other # <<>> => UndoneOk(cv[0], c, ev) /\ AgainOk(cv[0], other[1], c, ev)
    [] OTHER -> TRUE

\* The messages of a refused call: elements already supplied, elements not supplied at all and elements
\* of streams with wrong indices are named, and only these.
Alone(names) == {<<n>> : n \in names}
AddSays(c, a, said) ==
  LET twice == (Names(a.fmt) \cap Wanted(c)) \cap Supplied(c)
      fits == AddOk(c, [a EXCEPT !.fmt = <<>>])
  IN  /\ Justified(said, Alone(twice) \cup IF fits THEN {} ELSE {<<>>})
      /\ fits => AllNamed(said, twice)
ConvSays(c, said) ==
  LET missing == Wanted(c) \ Supplied(c)
      early == ~c.ok \/ c.done
      wrong == {k \in 1..Len(c.streams) : OutOfRange([c EXCEPT !.streams = <<c.streams[k]>>])}
      marked == c.cfg.itype = "None" /\ \E p \in 1..c.n : HasMark(c, p)
  IN  IF early THEN Justified(said, {<<>>})
      ELSE IF missing # {} THEN Justified(said, Alone(missing)) /\ AllNamed(said, missing)
      ELSE Justified(said, Alone(UNION {Names(c.streams[k].fmt) \cap Wanted(c) : k \in wrong}) \cup IF marked THEN {<<>>} ELSE {})
Says28(c, ev) ==
  "said" \in DOMAIN ev =>
    CASE ev.op = "add" -> Expect(c, ev) \/ AddSays(c, AddOf(ev), ev.said)
      [] ev.op = "conv" -> Expect(c, ev) \/ ConvSays(c, ev.said)
      [] ev.op = "new" -> Expect(c, ev) \/ Justified(ev.said, {<<>>})
      [] OTHER -> TRUE

\* c, c2: before and after; prev: last observation of this converter since it converted, other: the
\* twin's.
Judge(c, c2, ev, prev, other) ==
  CASE PROP = "C08" ->
         /\ ev.op \in {"add", "conv"} => Reported(c, ev, Expect(c, ev))
         /\ ev.op = "new" => ev.ok = Expect(c, ev)
         /\ IsObs(ev) => (Converted(c) \/ NotConvertedObs(ev))
         /\ ev.same
         \* Whatever was refused, the bounds are as they were at first.
         /\ IsObs(ev) /\ ~Converted(c) /\ prev # <<>> => Fld(ev, "bpos", <<>>) = prev[1].bpos
         \* Later results are those of the accepted calls alone.
         /\ IsObs(ev) /\ Converted(c) =>
              /\ StreamsOk(c, ev) /\ ContentOk(c, Sources(c), ev, LAMBDA a, b : TRUE)
              /\ "bpos" \in DOMAIN ev => BoundsReported(c, Sources(c), ev)
    [] PROP = "C09" ->
         /\ ev.op = "new" => /\ Reported(c, ev, Expect(c, ev))
                             /\ ev.bool = ev.ok
                             /\ ev.ok => ReadBackOk(ev)
         /\ c.live /\ ~c.ok /\ ev.op \in {"add", "conv"} => Reported(c, ev, FALSE)
         /\ c.live /\ ~c.ok /\ ev.op = "tr" /\ "name" \in DOMAIN ev => ~ev.ok
         /\ IsObs(ev) /\ ~c.ok => NotConvertedObs(ev)
         \* An accepted configuration accepts a stream that fits it.
         /\ c.live /\ c.ok /\ ev.op = "add" => ev.ok = Expect(c, ev)
    [] PROP = "C28" -> Says28(c, ev)
    [] PROP = "C10" -> ev.same /\ (ev.op = "conv" => ev.ok = Expect(c, ev))
    [] PROP = "C06" ->
         /\ ev.op = "tr" => ev.ok = Expect(c, ev) /\ (c.ok => TransformsOk(c2, ev))
         /\ IsObs(ev) /\ Converted(c) => JudgeObs(c, ev, prev, other)
    [] PROP = "C23" ->
         /\ ev.op \in {"add", "conv", "tr"} => ev.ok = Expect(c, ev)
         /\ IsObs(ev) /\ ~Converted(c) => NotConvertedObs(ev)
         /\ IsObs(ev) /\ Converted(c) => /\ JudgeObs(c, ev, prev, other)
                                         /\ ContentOk(c, Sources(c), ev, LAMBDA a, b : TRUE)
    [] PROP = "C25" ->
         /\ ev.op = "new" => ev.ok = Expect(c, ev)
         /\ ev.op \in {"add", "conv"} => Reported(c, ev, Expect(c, ev))
         /\ ev.op = "tr" => ev.ok = Expect(c, ev) /\ (c.ok => TransformsOk(c2, ev))
         /\ ev.same
         /\ IsObs(ev) => IF Converted(c) THEN JudgeObs(c, ev, prev, other) ELSE NotConvertedObs(ev)
    [] PROP = "C29" ->
         /\ ev.op \in {"new", "add", "conv"} => ev.ok = Expect(c, ev)
         /\ ev.same
         /\ IsObs(ev) => IF Converted(c) THEN JudgeObs(c, ev, prev, other) ELSE NotConvertedObs(ev)
    [] OTHER ->
         \* A conversion that must succeed and does not cannot have the property.
         /\ ev.op = "conv" => ev.ok = Expect(c, ev)
         /\ IsObs(ev) /\ Converted(c) => JudgeObs(c, ev, prev, other)

\* Whether the recorded output is exactly what the step-by-step model produces.
Drifts(c, ev) ==
  IF IsObs(ev) /\ Converted(c) /\ Indexed(c) /\ c.n <= 12
  THEN LET src == Sources(c)
           in == [p \in 1..c.n |-> IF HasMark(c, p) THEN Restart ELSE InContent(c, src, p)]
       IN  Exact(c, src) /\
           LET r == ModelResult(c.cfg.prim, c.cfg.patch, MaxOf(c), in)
           IN  r.verts # OutVerts(c, ev) \/
               r.bufs # [k \in 1..Len(ev.bufs) |-> [b |-> ev.bufs[k].b, i |-> ev.bufs[k].i]]
  ELSE FALSE

-----------------------------------------------------------------------------
\* Converters of a scenario.
Used(s) == IF Fld(Trace[s], "tag", "") = "several" THEN 8 ELSE 2

Init ==
  /\ sc \in 1..Len(Trace)
  /\ l = 1
  /\ cv = [k \in 0..(Used(sc) - 1) |-> NoConv]
  /\ obs = [k \in 0..(Used(sc) - 1) |-> <<>>]
  /\ bad = FALSE

Ev == Trace[sc].steps[l]
K == Fld(Ev, "c", 0)

Crash ==
  /\ l = 1 /\ Trace[sc].died # ""
  /\ ~bad
  /\ bad' = TRUE
  /\ PrintT("BAD " \o ToJson([id |-> Trace[sc].id, prop |-> PROP, step |-> 0, op |-> "crash", why |-> Trace[sc].died]))
  /\ UNCHANGED <<sc, l, cv, obs>>

Consume1 ==
  /\ ~bad /\ Trace[sc].died = ""
  /\ l <= Len(Trace[sc].steps)
  /\ l' = l + 1
  /\ LET c == cv[K]
         c2 == After(c, Ev)
         twin == Fld(Trace[sc], "tag", "") \in {"twin", "chain"} /\ K = 1
         \* Converters 4..7 repeat the calls of 0..3 alone.
         alone == Fld(Trace[sc], "tag", "") = "several" /\ K >= 4
         ok == Judge(c, c2, Ev, obs[K], IF twin THEN obs[0] ELSE IF alone THEN obs[K - 4] ELSE <<>>)
     IN  /\ cv' = [cv EXCEPT ![K] = c2]
         /\ obs' = IF IsObs(Ev) /\ Converted(c) /\ PROP \in {"C23", "C25", "C29"} THEN [obs EXCEPT ![K] = <<Ev>>]
                   ELSE IF IsObs(Ev) /\ ~Converted(c) /\ PROP = "C08" /\ obs[K] = <<>> /\ "bpos" \in DOMAIN Ev
                   THEN [obs EXCEPT ![K] = <<Ev>>]
                   ELSE IF Ev.op = "new" THEN [obs EXCEPT ![K] = <<>>] ELSE obs
         /\ bad' = ~ok
         /\ IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Trace[sc].id, prop |-> PROP, step |-> l, op |-> Ev.op, why |-> "rejected"]))
         /\ IF PROP = "C01" /\ ok /\ Drifts(c, Ev)
            THEN PrintT("DRIFT " \o ToJson([id |-> Trace[sc].id])) ELSE TRUE
  /\ UNCHANGED sc

Next == Crash \/ Consume1
Spec == Init /\ [][Next]_vars
=============================================================================
