------------------------------ MODULE MC_Tables ------------------------------
(* The tables are consistent with themselves; one state per entry.         *)
EXTENDS Tables, FiniteSets
VARIABLE i
Init == i = 1
Next == i < 20 /\ i' = i + 1
Spec == Init /\ [][Next]_i
L == LayoutSeq[i]
Distinct == Cardinality({Lower(LayoutSeq[k]) : k \in 1..20} \cup {Lower(ColorSeq[k]) : k \in 1..20}) = 40
RoundTrips == LayoutNamed(L) = L /\ LayoutNamed(ColorSeq[i]) = L
\* Components lie inside the layout and do not overlap.
InLayout ==
  LET c == Comps[L] IN
  /\ \A k \in 1..Len(c) : c[k].o >= 0 /\ c[k].o + c[k].w <= 8 * LayoutSize(L)
  /\ \A k, m \in 1..Len(c) : k < m => c[k].o + c[k].w <= c[m].o \/ c[m].o + c[m].w <= c[k].o
\* Everything valid has an encoding.
Encodable == \A t \in Types : ElementValid(L, t) => ~NoEncoding(L, t)
SomeType == \E t \in Types : ElementValid(L, t)
Counts == \A n \in 0..40 : \A p \in 1..4 :
  /\ CountFitsPair("LineList", <<0, n>>, 0) = (n % 2 = 0)
  /\ CountFitsPair("PatchList", <<0, n>>, p) = (n % p = 0)
=============================================================================
