------------------------------- MODULE Value4 -------------------------------
(***************************************************************************)
(* Vertex values: four doubles as recorded (<<kind, sign, exponent, limbs>>*)
(* with kind 0 finite, 1 infinite, 2 not a number), their comparison, and  *)
(* the range of the values seen, <<>> for components without any.          *)
(***************************************************************************)
EXTENDS Codec

DLe(a, b) ==
  LET r(x) == IF IsInf(x) THEN (IF x[2] = 1 THEN -1 ELSE 1) ELSE 0
  IN  IF r(a) # r(b) THEN r(a) < r(b) ELSE r(a) # 0 \/ QLe(QOfDouble(a), QOfDouble(b))
DEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ DLe(a, b) /\ DLe(b, a)
Equal4(a, b) == \A i \in 1..4 : DEq(a[i], b[i])

\* The bits are the same, except that one not-a-number is as good as another.
DSame(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))
Same4(a, b) == \A i \in 1..4 : DSame(a[i], b[i])

DZero == <<0, 0, 0, <<>>>>
DOne == <<0, 0, 0, <<1>>>>
\* What a value is that was given only some numbers.
Filled(v) == [i \in 1..4 |-> IF i <= Len(v) THEN v[i] ELSE IF i = 4 THEN DOne ELSE DZero]

NoRange == <<<<>>, <<>>, <<>>, <<>>>>
Grown(s, v) ==
  [i \in 1..4 |-> IF IsNaN(v[i]) THEN s[i]
                  ELSE IF s[i] = <<>> THEN <<v[i], v[i]>>
                  ELSE <<IF DLe(s[i][1], v[i]) THEN s[i][1] ELSE v[i], IF DLe(v[i], s[i][2]) THEN s[i][2] ELSE v[i]>>]
RangeIs(g, mn, mx) == \A i \in 1..4 : g[i] # <<>> => DEq(g[i][1], mn[i]) /\ DEq(g[i][2], mx[i])
=============================================================================
