-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* When a conversion can be undone: every value of one element format gets *)
(* back to where it was through another one.                               *)
(*                                                                         *)
(* The nearest value in the format in between is at most half a step of it *)
(* away; where its steps are shorter than those of the first format, the   *)
(* nearest value on the way back is the one it started from.  MC_Chain     *)
(* checks this against the encodings Codec accepts.                        *)
(***************************************************************************)
EXTENDS Codec

\* The bits of a float's whole numbers.
Whole(w) == FloatFmt(w).m + 1

\* Transforms that another one undoes.
Undoes(a, b) ==
  \/ a = "Identity" /\ b = "Identity"
  \/ a = "UNormToSNorm" /\ b = "SNormToUNorm"
  \/ a = "SNormToUNorm" /\ b = "UNormToSNorm"

CompRecovers(l1, t1, l2, t2, tr, i) ==
  LET a == Comps[l1][i].w
      b == Comps[l2][i].w
  IN  IF tr # "Identity"
      THEN /\ t1 = (IF tr = "UNormToSNorm" THEN "UNorm" ELSE "SNorm")
           /\ \/ t2 = (IF tr = "UNormToSNorm" THEN "SNorm" ELSE "UNorm") /\ b >= a
              \/ t2 = "Float" /\ Whole(b) > a /\ (FloatFmt(b).s = 1 \/ tr = "SNormToUNorm")
      ELSE CASE t1 = "UNorm" -> \/ t2 = "UNorm" /\ b >= a
                                \/ t2 = "SNorm" /\ b >= a + 2
                                \/ t2 = "Float" /\ Whole(b) > a
             [] t1 = "SNorm" -> \/ t2 = "SNorm" /\ b >= a
                                \/ t2 = "Float" /\ FloatFmt(b).s = 1 /\ Whole(b) > a
             [] t1 = "UInt" -> /\ a <= 32
                               /\ \/ t2 = "UInt" /\ b >= a
                                  \/ t2 = "SInt" /\ b > a
                                  \/ t2 = "Float" /\ Whole(b) >= a
             [] t1 = "SInt" -> /\ a <= 32
                               /\ \/ t2 = "SInt" /\ b >= a
                                  \/ t2 = "Float" /\ FloatFmt(b).s = 1 /\ Whole(b) >= a
             [] OTHER -> /\ t2 = "Float"
                         /\ FloatFmt(b).m >= FloatFmt(a).m /\ FloatFmt(b).x >= FloatFmt(a).x
                         /\ FloatFmt(b).s >= FloatFmt(a).s

\* Through the format (l2, t2) with the transform tr on the way there and back on the way back.
Recovers(l1, t1, l2, t2, tr, back) ==
  /\ Undoes(tr, back)
  /\ ~SharedExp(l1) /\ ~SharedExp(l2)
  /\ Len(Comps[l1]) <= Len(Comps[l2])
  /\ \A i \in 1..Len(Comps[l1]) : CompRecovers(l1, t1, l2, t2, tr, i)
=============================================================================
