------------------------------ MODULE MC_Chain ------------------------------
(***************************************************************************)
(* Every code of an element format is sent through another one and back,   *)
(* by every way of encoding that Codec accepts: where Recovers says so,    *)
(* the code it started from is the only one that can come back.            *)
(***************************************************************************)
EXTENDS Chain, FiniteSets

CONSTANTS Step,         \* every so many codes of the wide formats
          Fine          \* and of the others

VARIABLES way, key
vars == <<way, key>>

Narrow == <<<<"X8", "UNorm">>, <<"X8", "SNorm">>, <<"X8", "UInt">>, <<"X8", "SInt">>,
  <<"W2X10Y10Z10", "UNorm">>, <<"W2X10Y10Z10", "SNorm">>, <<"W2X10Y10Z10", "UInt">>, <<"W2X10Y10Z10", "SInt">>,
  <<"X16", "UNorm">>, <<"X16", "SNorm">>, <<"X16", "UInt">>, <<"X16", "SInt">>, <<"X16", "Float">>,
  <<"Z10Y11X11_UFloat", "Float">>>>
Wide == Narrow \o <<<<"X32", "Float">>>>
Trs == <<"Identity", "UNormToSNorm", "SNormToUNorm">>
Undo == <<"Identity", "SNormToUNorm", "UNormToSNorm">>

W(f) == Comps[f[1]][1].w

\* The finite codes of a format in increasing order are those of Lowest(f)..Highest(f).
Highest(f) == CASE f[2] # "Float" -> 2 ^ W(f) - 1
                [] W(f) = 11 -> 1983 [] W(f) = 16 -> 31743 [] OTHER -> 2139095039
Lowest(f) == IF f[2] = "Float" /\ W(f) # 11 THEN 0 - Highest(f) ELSE 0
LE(n, k) == [i \in 1..k |-> (n \div (256 ^ (i - 1))) % 256]
Code(f, k) ==
  LET w == W(f)
      n == IF f[2] = "Float" THEN (IF k < 0 THEN 0 - k ELSE k)
           ELSE IF f[2] \in {"SNorm", "SInt"} THEN (k + 2 ^ (w - 1)) % (2 ^ w) ELSE k
      bytes == IF w = 10 THEN LE(n * 1048576, 4) ELSE IF w = 11 THEN LE(n, 4) ELSE LE(n, w \div 8)
  IN  IF f[2] = "Float" /\ k < 0 THEN [bytes EXCEPT ![Len(bytes)] = @ + 128] ELSE bytes
Of(f, k) == Decode(f[1], f[2], Code(f, k), 1).q

\* The last code whose value is at most q (or the first one), between lo and hi.
RECURSIVE Below(_, _, _, _)
Below(f, q, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == hi - (hi \div 2 - lo \div 2)
           m == IF mid > hi THEN hi ELSE IF mid <= lo THEN lo + 1 ELSE mid
       IN  IF QLe(Of(f, m), q) THEN Below(f, q, m, hi) ELSE Below(f, q, lo, m - 1)

\* The acceptable encodings of the value v of f after the transform tr, as keys of g.
Encodings(f, v, tr, g) ==
  LET e == Transformed(tr, g[2], v, [any |-> FALSE], 1, HeldExactly(f[1], f[2]) /\ TakenOver(g[1], g[2]))
      at == Below(g, e.q, Lowest(g), Highest(g))
      near == {k \in {at - 2, at - 1, at, at + 1, at + 2} : k >= Lowest(g) /\ k <= Highest(g)}
  IN  {k \in near : EncodeOk(g[1], g[2], Code(g, k), 1, e.q, e.u)}

\* A way is a pair of formats and a transform, as indices.
F(w) == Narrow[w[1]]
G(w) == Wide[w[2]]
Tr(w) == Trs[w[3]]
CompOk(w) == CompRecovers(F(w)[1], F(w)[2], G(w)[1], G(w)[2], Tr(w), 1) /\ Undoes(Tr(w), Undo[w[3]])
Ways == {w \in (1..Len(Narrow)) \X (1..Len(Wide)) \X (1..3) : CompOk(w)}

Stride(f) == IF W(f) <= 8 THEN Fine ELSE IF W(f) <= 10 THEN 4 * Fine ELSE Step
Init == way \in Ways /\ key = Lowest(F(way))
Next == /\ key < Highest(F(way))
        /\ key' = Min2(key + Stride(F(way)), Highest(F(way)))
        /\ UNCHANGED way
Spec == Init /\ [][Next]_vars

There == Encodings(F(way), Of(F(way), key), Tr(way), G(way))
Back(k) == Encodings(G(way), Of(G(way), k), Undo[way[3]], F(way))

Encodable == There # {}
Unique == \A k \in There : Back(k) = {key}
=============================================================================
