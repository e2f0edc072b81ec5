------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Exact arithmetic for values wider than TLC's 32-bit integers.           *)
(*                                                                         *)
(* A natural number is a sequence of limbs in base 2^14, least significant *)
(* first, without trailing zero limbs (zero is the empty sequence).        *)
(*                                                                         *)
(* A rational is a record [s, n, e, d]: (-1)^s * n * 2^e / d with naturals *)
(* n and d (d > 0) and an integer e.  Doubles, integer codes and the       *)
(* fractions that normalized types stand for are all exact in this form.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Base == 16384

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE LimbsOf(_)
LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o LimbsOf(n \div Base)

NatOf(n) == LimbsOf(n)          \* n in 0..2^31-1

\* a*k + c for 0 <= k <= 2^16 and 0 <= c < 2^30.
MulAdd(a, k, c) ==
  LET step(acc, limb) ==
        LET t == limb * k + acc.c
        IN  [r |-> Append(acc.r, t % Base), c |-> t \div Base]
      f == FoldLeft(step, [r |-> <<>>, c |-> c], a)
  IN  Norm(f.r \o LimbsOf(f.c))

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

AddN(a, b) ==
  LET n == Max2(Len(a), Len(b))
      step(acc, i) ==
        LET t == Limb(a, i) + Limb(b, i) + acc.c
        IN  [r |-> Append(acc.r, t % Base), c |-> t \div Base]
      f == FoldLeft(step, [r |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN  Norm(Append(f.r, f.c))

\* a - b for a >= b.
SubN(a, b) ==
  LET step(acc, i) ==
        LET t == Limb(a, i) - Limb(b, i) - acc.c
        IN  IF t < 0 THEN [r |-> Append(acc.r, t + Base), c |-> 1]
                     ELSE [r |-> Append(acc.r, t), c |-> 0]
      f == FoldLeft(step, [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
  IN  Norm(f.r)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
  ELSE CmpFrom(a, b, i - 1)

CmpN(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE CmpFrom(a, b, Len(a))

Zeros(n) == [i \in 1..n |-> 0]

MulN(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF Len(b) = 1 THEN MulAdd(a, b[1], 0)
  ELSE FoldLeft(LAMBDA acc, i : AddN(acc, Zeros(i - 1) \o MulAdd(a, b[i], 0)),
                <<>>, [i \in 1..Len(b) |-> i])

Pow2Small(k) == 2^k              \* k <= 30

ShlN(a, k) ==
  IF a = <<>> \/ k = 0 THEN a
  ELSE Zeros(k \div 14) \o MulAdd(a, Pow2Small(k % 14), 0)

Pow2N(k) == ShlN(<<1>>, k)

RECURSIVE BitLenSmall(_)
BitLenSmall(n) == IF n = 0 THEN 0 ELSE 1 + BitLenSmall(n \div 2)

BitLen(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * 14 + BitLenSmall(a[Len(a)])

\* Little-endian bytes.
NatOfBytes(b) == FoldLeft(LAMBDA acc, x : MulAdd(acc, 256, x), <<>>, Reverse(b))

-----------------------------------------------------------------------------
(* Rationals. *)

Q(s, n, e, d) == [s |-> s, n |-> n, e |-> e, d |-> d]
QZero == Q(0, <<>>, 0, <<1>>)
QInt(i) == IF i < 0 THEN Q(1, NatOf(-i), 0, <<1>>) ELSE Q(0, NatOf(i), 0, <<1>>)
QOne == QInt(1)
QNat(n) == Q(0, n, 0, <<1>>)
QPow2(k) == Q(0, <<1>>, k, <<1>>)
QNeg(q) == IF q.n = <<>> THEN q ELSE [q EXCEPT !.s = 1 - @]
QAbs(q) == [q EXCEPT !.s = 0]
QIsZero(q) == q.n = <<>>

\* Compares |p| and |q|.
CmpMag(p, q) ==
  IF p.n = <<>> \/ q.n = <<>>
  THEN (IF p.n = <<>> THEN (IF q.n = <<>> THEN 0 ELSE -1) ELSE 1)
  ELSE
  LET same == p.d = q.d
      a == IF same THEN p.n ELSE MulN(p.n, q.d)
      b == IF same THEN q.n ELSE MulN(q.n, p.d)
      ma == BitLen(a) + p.e
      mb == BitLen(b) + q.e
      m == Min2(p.e, q.e)
  IN  IF ma # mb THEN (IF ma < mb THEN -1 ELSE 1)
      ELSE CmpN(ShlN(a, p.e - m), ShlN(b, q.e - m))

QCmp(p, q) ==
  IF p.n = <<>> /\ q.n = <<>> THEN 0
  ELSE LET sp == IF p.n = <<>> THEN q.s ELSE p.s
           sq == IF q.n = <<>> THEN p.s ELSE q.s
       IN  IF sp # sq THEN (IF sp = 1 THEN -1 ELSE 1)
           ELSE IF sp = 1 THEN 0 - CmpMag(p, q) ELSE CmpMag(p, q)

QLe(p, q) == QCmp(p, q) <= 0
QLt(p, q) == QCmp(p, q) < 0
QEq(p, q) == QCmp(p, q) = 0
QMin(p, q) == IF QLe(p, q) THEN p ELSE q
QMax(p, q) == IF QLe(p, q) THEN q ELSE p
QClamp(q, lo, hi) == QMin(QMax(q, lo), hi)

QAdd(p, q) ==
  IF p.n = <<>> THEN q ELSE IF q.n = <<>> THEN p ELSE
  LET same == p.d = q.d
      a0 == IF same THEN p.n ELSE MulN(p.n, q.d)
      b0 == IF same THEN q.n ELSE MulN(q.n, p.d)
      d == IF same THEN p.d ELSE MulN(p.d, q.d)
      m == Min2(p.e, q.e)
      a == ShlN(a0, p.e - m)
      b == ShlN(b0, q.e - m)
      c == CmpN(a, b)
  IN  IF p.s = q.s THEN Q(p.s, AddN(a, b), m, d)
      ELSE IF c = 0 THEN QZero
      ELSE IF c > 0 THEN Q(p.s, SubN(a, b), m, d)
      ELSE Q(q.s, SubN(b, a), m, d)

QSub(p, q) == QAdd(p, QNeg(q))
QMul(p, q) == IF p.n = <<>> \/ q.n = <<>> THEN QZero
              ELSE Q((p.s + q.s) % 2, MulN(p.n, q.n), p.e + q.e,
                     IF p.d = <<1>> THEN q.d ELSE IF q.d = <<1>> THEN p.d ELSE MulN(p.d, q.d))
\* p / q for q # 0.
QDiv(p, q) == IF p.n = <<>> THEN QZero
              ELSE Q((p.s + q.s) % 2, MulN(p.n, q.d), p.e - q.e, MulN(p.d, q.n))
QScale2(p, k) == IF p.n = <<>> THEN p ELSE [p EXCEPT !.e = @ + k]

\* |p - q| <= tol
QNear(p, q, tol) == CmpMag(QSub(p, q), tol) <= 0

\* A recorded double [class, sign, exponent, limbs].
IsFin(x) == x[1] = 0
IsInf(x) == x[1] = 1
IsNaN(x) == x[1] = 2
QOfDouble(x) == Q(x[2], x[4], x[3], <<1>>)
=============================================================================
