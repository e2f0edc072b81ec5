-------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* An index array as its bytes, little-endian; values are pairs <<high,    *)
(* low>> of 16-bit halves.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

ISize(t) == CASE t = "UInt16" -> 2 [] t = "UInt32" -> 4 [] OTHER -> 0
IRestart(t) == IF t = "UInt16" THEN <<0, 65535>> ELSE <<65535, 65535>>
IMax(t) == IF t = "UInt16" THEN <<0, 65534>> ELSE <<65535, 65534>>
IFits(t, v) == t = "UInt32" \/ v[1] = 0
IRead(t, m, i) ==
  LET a == i * ISize(t)
      half(k) == m[a + k] + 256 * m[a + k + 1]
  IN  IF t = "UInt16" THEN <<0, half(1)>> ELSE <<half(3), half(1)>>
IBytes(t, v) == <<v[2] % 256, v[2] \div 256>> \o (IF t = "UInt32" THEN <<v[1] % 256, v[1] \div 256>> ELSE <<>>)
IWrite(t, m, i, v) ==
  [k \in 1..Len(m) |-> IF k > i * ISize(t) /\ k <= (i + 1) * ISize(t) THEN IBytes(t, v)[k - i * ISize(t)] ELSE m[k]]

-----------------------------------------------------------------------------
(* An array too long to write down: what was last written where, 0 elsewhere. *)
BRead(w, i) ==
  LET K == {k \in 1..Len(w) : w[k][1] = i}
  IN  IF K = {} THEN <<0, 0>> ELSE w[CHOOSE k \in K : \A j \in K : j <= k][2]
=============================================================================
