---------------------------- MODULE ConverterModel ----------------------------
(***************************************************************************)
(* The algorithm that turns a sequence of input positions into vertices    *)
(* and index buffers: one Step per iteration of the conversion loop, with  *)
(* the split and its carried-over vertices as an action of its own.        *)
(***************************************************************************)
EXTENDS Geometry

\* c: [prim, patch, max, in]
Init0(c) ==
  [c |-> c, pos |-> 1, verts |-> <<>>, ix |-> <<>>, bufs |-> <<[b |-> 0, s |-> 0, n |-> 0]>>,
   last |-> 0,      \* position in ix of the marker the current strip began after
   done |-> FALSE]

Cur(st) == st.bufs[Len(st.bufs)]
\* The vertex with the given content in the current range, or 0.
Find(st, v) ==
  LET R == {k \in (Cur(st).b + 1)..Len(st.verts) : st.verts[k] = v}
  IN  IF R = {} THEN 0 ELSE CHOOSE k \in R : TRUE

PutIndex(st, x) == [st EXCEPT !.ix = Append(@, x),
                             !.bufs[Len(st.bufs)].n = @ + 1]
\* Adds a vertex to the current range (or finds it there) and an index to it.
PutVertex(st, v) ==
  LET f == Find(st, v)
      st2 == IF f = 0 THEN [st EXCEPT !.verts = Append(@, v)] ELSE st
      k == IF f = 0 THEN Len(st2.verts) ELSE f
  IN  PutIndex(st2, k - 1 - Cur(st).b)

NeedSplit(st) ==
  Len(st.verts) + Stride(st.c.prim, st.c.patch) - 1 - Cur(st).b > st.c.max

EndsStrip(st, p) == p > Len(st.c.in) \/ st.c.in[p] = Restart

\* Starts a new buffer with the vertices the unfinished strip or fan still needs.
Split(st) ==
  LET len == Len(st.ix)
      strip == len - st.last            \* indices in the strip so far
      prevBase == Cur(st).b
      content(k) == st.verts[st.ix[k] + prevBase + 1]
      base == Len(st.verts)
      s0 == [st EXCEPT !.bufs = Append(@, [b |-> base, s |-> len, n |-> 0]), !.last = len]
      carry(s, ks) == FoldLeft(LAMBDA acc, k : PutVertex(acc, content(k)), s, ks)
      s1 ==
        CASE st.c.prim = "LineStrip" -> IF strip >= 1 THEN carry(s0, <<len>>) ELSE s0
          [] st.c.prim = "TriangleStrip" ->
               IF strip < 2 THEN carry(s0, [i \in 1..strip |-> st.last + i])
               ELSE IF strip % 2 = 0 THEN carry(s0, <<len - 1, len>>)
               ELSE IF EndsStrip(st, st.pos + 1)      \* one triangle left: swap its first corners
               THEN LET s == carry(s0, <<len - 1, len>>)
                    IN  [s EXCEPT !.ix[len + 1] = s.ix[len + 2], !.ix[len + 2] = s.ix[len + 1]]
               \* otherwise a degenerate triangle shifts the parity
               ELSE carry(s0, <<len - 1, len - 1, len>>)
          [] st.c.prim = "TriangleFan" ->
               IF strip = 0 THEN s0
               ELSE IF strip = 1 THEN carry(s0, <<st.last + 1>>)
               ELSE carry(s0, <<st.last + 1, len>>)
          [] OTHER -> s0
      added == Len(s1.ix) - len
      p == Len(st.bufs)
      trim == st.c.prim \in RestartPrims /\ strip < MinCount(st.c.prim, st.c.patch)
  IN  IF trim THEN [s1 EXCEPT !.bufs[p].n = @ - added] ELSE s1

Consume(st) ==
  LET s == Stride(st.c.prim, st.c.patch)
      x == st.c.in[st.pos]
  IN  IF x = Restart
      THEN [PutIndex(st, -1) EXCEPT !.last = Len(st.ix) + 1, !.pos = @ + 1]
      ELSE [FoldLeft(LAMBDA acc, j : PutVertex(acc, st.c.in[st.pos + j - 1]), st,
                     [j \in 1..s |-> j]) EXCEPT !.pos = @ + s]

Step(st) ==
  IF st.pos > Len(st.c.in) THEN [st EXCEPT !.done = TRUE]
  ELSE IF NeedSplit(st) THEN Consume(Split(st)) ELSE Consume(st)

OutBufs(st) == [i \in 1..Len(st.bufs) |->
                  [b |-> st.bufs[i].b,
                   i |-> SubSeq(st.ix, st.bufs[i].s + 1, st.bufs[i].s + st.bufs[i].n)]]

RECURSIVE RunToEnd(_)
RunToEnd(st) == IF st.done THEN st ELSE RunToEnd(Step(st))
ModelResult(prim, patch, max, in) ==
  LET st == RunToEnd(Init0([prim |-> prim, patch |-> patch, max |-> max, in |-> in]))
  IN  [verts |-> st.verts, bufs |-> OutBufs(st)]
=============================================================================
