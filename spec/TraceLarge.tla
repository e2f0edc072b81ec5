------------------------------ MODULE TraceLarge ------------------------------
(***************************************************************************)
(* Meshes beyond the default limit: n distinct vertices 0..n-1 in order, or *)
(* with mod the vertices 0..mod-1 again and again through indices.         *)
(* Every buffer is recorded as the runs <<first, length>> of consecutive   *)
(* input positions its indices refer to.                                   *)
(***************************************************************************)
EXTENDS Geometry, Codec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
VARIABLES sc, l, bad

Limit(ev) == IF ev.itype = "UInt16" THEN 65534 ELSE 2147483646
S(ev) == Stride(ev.prim, ev.patch)

Mod(ev) == IF "mod" \in DOMAIN ev THEN ev.mod ELSE ev.n
\* The runs of the input.
Input(ev) ==
  [k \in 1..(ev.n \div Mod(ev)) |-> <<0, Mod(ev)>>]
  \o (IF ev.n % Mod(ev) = 0 THEN <<>> ELSE << <<0, ev.n % Mod(ev)>> >>)

\* Vertices of a buffer: as many as the different input vertices it draws, no vertex twice.
\* Runs that begin and end alike need to be looked at once; the others in order of where they begin.
Different(b) ==
  LET rs == SortSeq(SetToSeq({<<b.runs[i][1], b.runs[i][2]>> : i \in 1..Len(b.runs)}), LAMBDA x, y : x[1] < y[1])
  IN  FoldLeft(LAMBDA acc, r : LET end == r[1] + r[2]
                                   from == IF r[1] < acc[2] THEN acc[2] ELSE r[1]
                               IN  IF end > from THEN <<acc[1] + end - from, end>> ELSE acc,
               <<0, 0>>, rs)[1]
Shared(ev) ==
  \A i \in 1..Len(ev.bufs) :
    Different(ev.bufs[i]) = (IF i = Len(ev.bufs) THEN ev.vcount ELSE ev.bufs[i + 1].b) - ev.bufs[i].b

Bounded1(ev) == /\ QEq(QOfDouble(ev.mn[1]), QZero) /\ QEq(QOfDouble(ev.mx[1]), QInt(Mod(ev) - 1))
                /\ ev.any

\* The runs of the whole output joined.
Joined(ev) ==
  FoldLeft(LAMBDA acc, r : IF acc # <<>> /\ acc[Len(acc)][1] + acc[Len(acc)][2] = r[1]
                           THEN [acc EXCEPT ![Len(acc)][2] = @ + r[2]] ELSE Append(acc, r),
           <<>>, FlattenSeq([i \in 1..Len(ev.bufs) |-> ev.bufs[i].runs]))

Short(b) == b.c <= 12
\* The indices of a short buffer.
Expand(b) == FlattenSeq([i \in 1..Len(b.runs) |-> [k \in 1..b.runs[i][2] |-> <<b.runs[i][1] + k>>]])

\* First and one past the last input primitive a buffer draws, or <<>> if it is not a faithful part.
Part(ev, b) ==
  LET m == b.runs[Len(b.runs)]                  \* the long run
      pre == Len(b.runs) - 1
      end == m[1] + m[2]
  IN  CASE ev.prim = "LineStrip" ->
             IF pre = 0 THEN <<m[1], end - 1>> ELSE <<>>
        [] ev.prim = "TriangleStrip" ->
             IF Short(b) THEN
               LET d == Draws(ev.prim, 0, Expand(b))
                   t == [k \in 1..Len(d) |-> CHOOSE x \in 0..ev.n : \E q \in {d[k]} :
                            x + 1 = (LET a == q[1][1] c == q[2][1] e == q[3][1]
                                     IN IF a < c THEN (IF a < e THEN a ELSE e) ELSE (IF c < e THEN c ELSE e))]
                   in(x) == IF x % 2 = 0 THEN << <<x + 1>>, <<x + 2>>, <<x + 3>> >>
                                         ELSE << <<x + 2>>, <<x + 1>>, <<x + 3>> >>
               IN  IF d = <<>> THEN <<>>
                   ELSE IF \A k \in 1..Len(d) : t[k] = t[1] + k - 1 /\ SamePrim(ev.prim, d[k], in(t[k]))
                   THEN <<t[1], t[1] + Len(d)>> ELSE <<>>
             ELSE \* an optional repeated first position in front
               IF /\ pre <= 1
                  /\ pre = 1 => b.runs[1] = <<m[1], 1>>
                  /\ pre % 2 = m[1] % 2
               THEN <<m[1], end - 2>> ELSE <<>>
        [] ev.prim = "TriangleFan" ->
             IF pre = 0 /\ m[1] = 0 THEN <<0, end - 2>>
             ELSE IF pre = 1 /\ b.runs[1] = <<0, 1>> THEN <<m[1] - 1, end - 2>> ELSE <<>>
        [] OTHER -> <<>>

Prims2(ev) == CASE ev.prim = "LineStrip" -> ev.n - 1 [] OTHER -> ev.n - 2

GeometryFine(ev) ==
  IF ev.prim \notin RestartPrims
  THEN Joined(ev) = Input(ev) /\ \A i \in 1..Len(ev.bufs) : ev.bufs[i].c % S(ev) = 0
  ELSE LET p == [i \in 1..Len(ev.bufs) |-> Part(ev, ev.bufs[i])]
       IN  /\ \A i \in 1..Len(p) : p[i] # <<>>
           /\ p[1][1] = 0 /\ p[Len(p)][2] = Prims2(ev)
           /\ \A i \in 1..(Len(p) - 1) : p[i][2] = p[i + 1][1]

Judge(ev) ==
  /\ ev.ok /\ ev.nerr = 0
  /\ PROP = "C07" => Bounded1(ev)
  /\ IF ev.itype = "None" THEN ev.bufs = <<>> /\ ev.vcount = ev.n /\ ev.vruns = Input(ev)
     ELSE
     /\ Len(ev.bufs) >= 1
     /\ CASE PROP = "C02" ->
               /\ ev.bufs[1].b = 0
               /\ \A i \in 1..Len(ev.bufs) :
                    /\ ev.bufs[i].maxi >= 0 /\ ev.bufs[i].maxi <= Limit(ev) /\ ~ev.bufs[i].oob
                    /\ ev.bufs[i].ty = ev.itype
                    /\ i > 1 => ev.bufs[i - 1].b < ev.bufs[i].b
          [] PROP = "C04" ->
               /\ \A i \in 1..(Len(ev.bufs) - 1) : ev.bufs[i + 1].b - ev.bufs[i].b > Limit(ev) + 1 - S(ev)
               /\ (Mod(ev) + (IF Mod(ev) < ev.n THEN 1 ELSE 0) <= Limit(ev) + 2 - S(ev)) => Len(ev.bufs) = 1
               /\ ev.itype = "UInt32" => Len(ev.bufs) = 1
               /\ \A i \in 1..Len(ev.bufs) : ev.bufs[i].c > 0
          [] PROP = "C03" -> Shared(ev)
          [] PROP = "C07" -> TRUE
          [] PROP = "C10" -> \A i \in 1..Len(ev.bufs) : ~ev.bufs[i].oob
          [] OTHER -> GeometryFine(ev)

Init == sc \in 1..Len(Trace) /\ l = 1 /\ bad = FALSE
Crash ==
  /\ Trace[sc].died # "" /\ ~bad /\ bad' = TRUE
  /\ PrintT("BAD " \o ToJson([id |-> Trace[sc].id, prop |-> PROP, step |-> 0, op |-> "crash", why |-> Trace[sc].died]))
  /\ UNCHANGED <<sc, l>>
Consume1 ==
  /\ Trace[sc].died = "" /\ ~bad /\ l <= Len(Trace[sc].steps)
  /\ l' = l + 1
  /\ LET ok == Judge(Trace[sc].steps[l])
     IN  /\ bad' = ~ok
         /\ IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Trace[sc].id, prop |-> PROP, step |-> l, op |-> "large", why |-> "rejected"]))
  /\ UNCHANGED sc
Spec == Init /\ [][Crash \/ Consume1]_<<sc, l, bad>>
=============================================================================
