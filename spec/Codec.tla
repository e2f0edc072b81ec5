-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* What the bit patterns of every element layout and type stand for, as    *)
(* exact rationals, and which encodings of a value are acceptable.         *)
(*                                                                         *)
(* Encoding is specified as a relation: a code is acceptable when it is a  *)
(* nearest representable value (ties either way, with a slack far below    *)
(* half a step for the rounding of intermediate doubles).                  *)
(***************************************************************************)
EXTENDS BigNum, TLC

LayoutSeq == <<"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10",
  "X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32",
  "X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat">>
ColorSeq == <<"R8", "R8G8", "R8G8B8", "R8G8B8A8", "A2R10G10B10", "A2B10G10R10",
  "R16", "R16G16", "R16G16B16", "R16G16B16A16", "R32", "R32G32", "R32G32B32", "R32G32B32A32",
  "R64", "R64G64", "R64G64B64", "R64G64B64A64", "B10G11R11_UFloat", "E5B9G9R9_UFloat">>
TypeSeq == <<"UNorm", "SNorm", "UInt", "SInt", "Float">>
Layouts == {LayoutSeq[i] : i \in 1..Len(LayoutSeq)}
Types == {TypeSeq[i] : i \in 1..Len(TypeSeq)}

Plain(w, n) == [i \in 1..n |-> [o |-> (i - 1) * w, w |-> w]]

\* Components in the order X, Y, Z, W: bit offset from the first byte's lowest bit, and width.
Comps ==
  [l \in Layouts |->
    CASE l = "X8" -> Plain(8, 1) [] l = "X8Y8" -> Plain(8, 2)
      [] l = "X8Y8Z8" -> Plain(8, 3) [] l = "X8Y8Z8W8" -> Plain(8, 4)
      [] l = "X16" -> Plain(16, 1) [] l = "X16Y16" -> Plain(16, 2)
      [] l = "X16Y16Z16" -> Plain(16, 3) [] l = "X16Y16Z16W16" -> Plain(16, 4)
      [] l = "X32" -> Plain(32, 1) [] l = "X32Y32" -> Plain(32, 2)
      [] l = "X32Y32Z32" -> Plain(32, 3) [] l = "X32Y32Z32W32" -> Plain(32, 4)
      [] l = "X64" -> Plain(64, 1) [] l = "X64Y64" -> Plain(64, 2)
      [] l = "X64Y64Z64" -> Plain(64, 3) [] l = "X64Y64Z64W64" -> Plain(64, 4)
      \* First named component in the highest bits.
      [] l = "W2X10Y10Z10" -> <<[o |-> 20, w |-> 10], [o |-> 10, w |-> 10], [o |-> 0, w |-> 10], [o |-> 30, w |-> 2]>>
      [] l = "W2Z10Y10X10" -> <<[o |-> 0, w |-> 10], [o |-> 10, w |-> 10], [o |-> 20, w |-> 10], [o |-> 30, w |-> 2]>>
      [] l = "Z10Y11X11_UFloat" -> <<[o |-> 0, w |-> 11], [o |-> 11, w |-> 11], [o |-> 22, w |-> 10]>>
      [] OTHER -> <<[o |-> 0, w |-> 9], [o |-> 9, w |-> 9], [o |-> 18, w |-> 9]>>]

SharedExp(l) == l = "E5Z9Y9X9_UFloat"
PackedFloat(l) == l \in {"Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"}

LayoutSize(l) ==
  IF SharedExp(l) THEN 4
  ELSE FoldLeft(LAMBDA a, c : a + c.w, 0, Comps[l]) \div 8

\* The documented combinations of layout and type.
ElementValid(l, t) ==
  /\ l \in Layouts /\ t \in Types
  /\ IF PackedFloat(l) THEN t = "Float"
     ELSE LET w == Comps[l][1].w
          IN  CASE t \in {"UNorm", "SNorm"} -> w <= 16
                [] t = "Float" -> w >= 16
                [] OTHER -> TRUE

\* Combinations with no encoding at all.
NoEncoding(l, t) ==
  \/ l \notin Layouts \/ t \notin Types
  \/ PackedFloat(l) /\ t # "Float"
  \/ ~PackedFloat(l) /\ t = "Float" /\ Comps[l][1].w < 16

-----------------------------------------------------------------------------
(* Bits *)

Bit(b, i) == (b[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2
BitField(b, o, w) == FoldLeft(LAMBDA acc, i : acc * 2 + Bit(b, o + w - 1 - i), 0,
                              [i \in 1..w |-> i - 1])
\* The code of a component as a natural.
CodeN(b, c) ==
  IF c.o % 8 = 0 /\ c.w % 8 = 0
  THEN NatOfBytes(SubSeq(b, (c.o \div 8) + 1, (c.o + c.w) \div 8))
  ELSE NatOf(BitField(b, c.o, c.w))

MaxN(w) == SubN(Pow2N(w), <<1>>)         \* 2^w - 1

\* Two's complement.
SignedQ(n, w) == IF CmpN(n, Pow2N(w - 1)) >= 0
                 THEN Q(1, SubN(Pow2N(w), n), 0, <<1>>) ELSE QNat(n)
\* The position of a two's complement code counted from the lowest one.
OffsetN(n, w) == IF CmpN(n, Pow2N(w - 1)) >= 0
                 THEN SubN(n, Pow2N(w - 1)) ELSE AddN(n, Pow2N(w - 1))

\* Floating-point formats: mantissa bits, exponent bits, sign bit.
FloatFmt(w) == CASE w = 16 -> [m |-> 10, x |-> 5, s |-> 1]
                 [] w = 32 -> [m |-> 23, x |-> 8, s |-> 1]
                 [] w = 64 -> [m |-> 52, x |-> 11, s |-> 1]
                 [] w = 11 -> [m |-> 6, x |-> 5, s |-> 0]
                 [] OTHER -> [m |-> 5, x |-> 5, s |-> 0]

\* Sign, exponent and mantissa fields.
FloatFields(b, c) ==
  LET f == FloatFmt(c.w)
      mant == IF f.m <= 23 THEN NatOf(BitField(b, c.o, f.m))
              ELSE AddN(NatOf(BitField(b, c.o, 26)),
                        ShlN(NatOf(BitField(b, c.o + 26, f.m - 26)), 26))
  IN  [f |-> f, m |-> mant, x |-> BitField(b, c.o + f.m, f.x),
       s |-> IF f.s = 1 THEN Bit(b, c.o + c.w - 1) ELSE 0]

Bias(f) == 2^(f.x - 1) - 1
MaxExpField(f) == 2^f.x - 1

Fin(q) == [k |-> "fin", q |-> q]
Inf(s) == [k |-> "inf", q |-> Q(s, <<1>>, 0, <<1>>)]
NaN == [k |-> "nan", q |-> QZero]

FloatVal(ff) ==
  IF ff.x = MaxExpField(ff.f) THEN (IF ff.m = <<>> THEN Inf(ff.s) ELSE NaN)
  ELSE IF ff.x = 0 THEN Fin(Q(ff.s, ff.m, 1 - Bias(ff.f) - ff.f.m, <<1>>))
  ELSE Fin(Q(ff.s, AddN(ff.m, Pow2N(ff.f.m)), ff.x - Bias(ff.f) - ff.f.m, <<1>>))

\* What component i (1..4) of the given bytes stands for.
Decode(l, t, b, i) ==
  IF i > Len(Comps[l]) THEN Fin(IF i = 4 THEN QOne ELSE QZero)
  ELSE
  LET c == Comps[l][i] IN
  IF SharedExp(l) THEN Fin(Q(0, NatOf(BitField(b, c.o, 9)), BitField(b, 27, 5) - 24, <<1>>))
  ELSE CASE t = "UNorm" -> Fin(Q(0, CodeN(b, c), 0, MaxN(c.w)))
         [] t = "SNorm" ->
              LET off == OffsetN(CodeN(b, c), c.w)
              IN  Fin(QSub(Q(0, ShlN(off, 1), 0, MaxN(c.w)), QOne))
         [] t = "UInt" -> Fin(QNat(CodeN(b, c)))
         [] t = "SInt" -> Fin(SignedQ(CodeN(b, c), c.w))
         [] OTHER -> FloatVal(FloatFields(b, c))

DecodeAll(l, t, b) == [i \in 1..4 |-> Decode(l, t, b, i)]

-----------------------------------------------------------------------------
(* Is the recorded double x the value v stands for, up to the precision of *)
(* double arithmetic?                                                      *)

DoubleIs(v, x, slack) ==
  CASE v.k = "nan" -> IsNaN(x)
    [] v.k = "inf" -> IsInf(x) /\ x[2] = v.q.s
    [] OTHER -> /\ IsFin(x)
                /\ QNear(v.q, QOfDouble(x), slack)

\* Exact for floats and integers up to 53 bits.
DecodeSlack(l, t, v) ==
  CASE t \in {"UNorm", "SNorm"} -> QPow2(-50)
    [] t \in {"UInt", "SInt"} /\ ~PackedFloat(l) /\ Comps[l][1].w = 64 /\ v.k = "fin"
         -> QScale2(QAbs(v.q), -53)
    [] OTHER -> QZero

DecodedOk(l, t, b, x) ==
  \A i \in 1..4 : LET v == Decode(l, t, b, i) IN DoubleIs(v, x[i], DecodeSlack(l, t, v))

-----------------------------------------------------------------------------
(* Acceptable encodings of an exact value q (with absolute uncertainty u,  *)
(* the rounding of the double computations that led to it).                *)

Half == QPow2(-1)
Slack == QPow2(-16)     \* in steps of the target code

\* Nearest float: within half a unit in the last place (a quarter below a power of two).
FloatNear(ff, q, u) ==
  LET f == ff.f
      v == FloatVal(ff)
      ulp == QPow2(Max2(ff.x, 1) - Bias(f) - f.m)
      lower == ff.m = <<>> /\ ff.x > 1 /\ CmpMag(q, v.q) < 0
      tol == QAdd(QScale2(ulp, IF lower THEN -2 ELSE -1), u)
  IN  /\ v.k = "fin"
      /\ QNear(v.q, q, tol)

MaxFloat(f) == Q(0, SubN(Pow2N(f.m + 1), <<1>>), MaxExpField(f) - 1 - Bias(f) - f.m, <<1>>)
\* Halfway between the largest finite value and the next power of two.
FloatOverflow(f) == Q(0, SubN(Pow2N(f.m + 2), <<1>>), MaxExpField(f) - 2 - Bias(f) - f.m, <<1>>)

IsMaxFloat(ff) == ff.x = MaxExpField(ff.f) - 1 /\ ff.m = MaxN(ff.f.m)

\* The half float encoder may round to single precision first.
ViaSingle(w, q, u) == IF w = 16 THEN QAdd(u, QScale2(QAbs(q), -24)) ELSE u

EncodeFloat(c, b, q0, u0) ==
  LET ff == FloatFields(b, c)
      f == ff.f
      u == ViaSingle(c.w, q0, u0)
      unsigned == f.s = 0
      q == IF unsigned /\ q0.s = 1 THEN QZero ELSE q0
  IN  IF unsigned /\ QLe(MaxFloat(f), q) THEN IsMaxFloat(ff)       \* saturates
      ELSE IF ff.x = MaxExpField(f)
      THEN /\ ff.m = <<>> /\ ff.s = q.s /\ ~unsigned
           /\ QLe(FloatOverflow(f), QAdd(QAbs(q), u))
      ELSE FloatNear(ff, q, u)

EncodeOk(l, t, b, i, q, u) ==
  LET c == Comps[l][i] IN
  CASE t = "UNorm" ->
         LET k == MaxN(c.w)
             p == QMul(QClamp(q, QZero, QOne), QNat(k))
         IN  QNear(QNat(CodeN(b, c)), p, QAdd(QAdd(Half, Slack), QMul(u, QNat(k))))
    [] t = "SNorm" ->
         LET k == MaxN(c.w)
             p == QMul(QScale2(QAdd(QClamp(q, QInt(-1), QOne), QOne), -1), QNat(k))
         IN  QNear(QNat(OffsetN(CodeN(b, c), c.w)), p, QAdd(QAdd(Half, Slack), QMul(u, QNat(k))))
    [] t = "UInt" ->
         LET p == QClamp(q, QZero, QNat(MaxN(c.w)))
         IN  QNear(QNat(CodeN(b, c)), p, QAdd(Half, u))
    [] t = "SInt" ->
         LET p == QClamp(q, Q(1, Pow2N(c.w - 1), 0, <<1>>), QNat(MaxN(c.w - 1)))
         IN  QNear(SignedQ(CodeN(b, c), c.w), p, QAdd(Half, u))
    [] OTHER -> EncodeFloat(c, b, q, u)

\* The shared exponent format: a nearest value in the steps of the exponent the largest component
\* needs (one more when that component rounds up to it).
MaxShared == QNat(NatOf(65408))
SharedOk(b, qs, us) ==
  LET p == [i \in 1..3 |-> QClamp(qs[i], QZero, MaxShared)]
      e == BitField(b, 27, 5)
      m == [i \in 1..3 |-> BitField(b, 9 * (i - 1), 9)]
      step == QPow2(e - 24)
      near(i) == QNear(Q(0, NatOf(m[i]), e - 24, <<1>>), p[i],
                       QAdd(QScale2(step, -1), QAdd(us[i], QScale2(step, -16))))
      \* With a smaller exponent some component would not fit.
      needed == e = 0 \/ \E i \in 1..3 :
                   QLe(QSub(Q(0, NatOf(1023), e - 26, <<1>>), QAdd(us[i], QScale2(step, -16))), p[i])
  IN  (\A i \in 1..3 : near(i)) /\ needed

EncodedAllOk(l, t, b, qs, us) ==
  IF SharedExp(l) THEN SharedOk(b, qs, us)
  ELSE \A i \in 1..Len(Comps[l]) : EncodeOk(l, t, b, i, qs[i], us[i])

NoSlack == [i \in 1..4 |-> QZero]

\* Targets that take a double over without arithmetic of their own: integers and floats of 32 bits or more.
TakenOver(l, t) == t \in {"UInt", "SInt"} \/ (t = "Float" /\ Comps[l][1].w >= 32)
\* Values a double holds exactly.
HeldExactly(l, t) == t = "Float" \/ (t \in {"UInt", "SInt"} /\ Comps[l][1].w <= 32)

-----------------------------------------------------------------------------
(* Order of the codes of one component: -1, 0 or 1.                        *)
CmpCode(l, t, b1, b2, i) == QCmp(Decode(l, t, b1, i).q, Decode(l, t, b2, i).q)
AllFinite(l, t, b) == \A i \in 1..4 : Decode(l, t, b, i).k = "fin"
HasNaN(l, t, b) == \E i \in 1..4 : Decode(l, t, b, i).k = "nan"

\* Two byte strings of the same layout and type stand for the same values.
SameValues(l, t, b1, b2) ==
  \A i \in 1..4 : LET v == Decode(l, t, b1, i)
                      w == Decode(l, t, b2, i)
                  IN  v.k = w.k /\ QCmp(v.q, w.q) = 0

-----------------------------------------------------------------------------
(* Bounds-normalized values: (v - min) / (max - min), in [0, 1] for UNorm  *)
(* and remapped to [-1, 1] for SNorm; the default where the bounds meet.   *)
Bounded(t, v, mn, mx, i) ==
  IF t \notin {"UNorm", "SNorm"} THEN v
  ELSE IF QCmp(mn, mx) >= 0 THEN (IF i = 4 THEN QOne ELSE QZero)
  ELSE LET r == QDiv(QSub(v, mn), QSub(mx, mn))
       IN  IF t = "UNorm" THEN r ELSE QSub(QScale2(r, 1), QOne)

Normalized(t) == t \in {"UNorm", "SNorm"}
\* The value the output must encode, with the uncertainty of double arithmetic.
Eps == QPow2(-48)
Transformed(tr, t, v, bd, m, exact) ==
  LET one == QAdd(QAbs(v), QOne) IN
  CASE tr = "UNormToSNorm" -> [q |-> QSub(QScale2(v, 1), QOne), u |-> QMul(Eps, one)]
    [] tr = "SNormToUNorm" -> [q |-> QAdd(QScale2(v, -1), Half), u |-> QMul(Eps, one)]
    [] tr = "Bounds" /\ Normalized(t) ->
         LET mn == bd.mn.q
             mx == bd.mx.q
             range == QSub(mx, mn)
             mag == QAdd(QMax(QAbs(mn), QAbs(mx)), QAbs(v))
         IN  [q |-> Bounded(t, v, mn, mx, m),
              u |-> IF QCmp(mn, mx) >= 0 THEN Eps ELSE QMul(Eps, QAdd(QOne, QDiv(mag, range)))]
    [] OTHER -> [q |-> v, u |-> IF exact THEN QZero ELSE QMul(Eps, QAbs(v))]
=============================================================================
