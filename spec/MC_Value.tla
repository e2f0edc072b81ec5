------------------------------ MODULE MC_Value ------------------------------
(* Ranges grown by every short sequence of values, in every order.         *)
EXTENDS Value4, FiniteSets
CONSTANT Depth
VARIABLES seen, range
vars == <<seen, range>>
Doubles == {<<2, 0, 0, <<>>>>, <<1, 0, 0, <<>>>>, <<1, 1, 0, <<>>>>, DZero, <<0, 1, 0, <<>>>>, DOne, <<0, 1, 0, <<1>>>>, <<0, 0, -1074, <<1>>>>,
            <<0, 0, 971, <<16383, 16383, 16383, 2047>>>>}
\* The components are alike, so two of them vary.
Vals == {<<x, y, DOne, DZero>> : x \in Doubles, y \in {DZero, <<2, 0, 0, <<>>>>}}
Init == seen = <<>> /\ range = NoRange
Next == /\ Len(seen) < Depth
        /\ \E v \in Vals : seen' = Append(seen, v) /\ range' = Grown(range, v)
Spec == Init /\ [][Next]_vars

Numbers(i) == {k \in 1..Len(seen) : ~IsNaN(seen[k][i])}
\* The range encloses every number seen and both its ends are among them.
Tight == \A i \in 1..4 :
  IF Numbers(i) = {} THEN range[i] = <<>>
  ELSE /\ \A k \in Numbers(i) : DLe(range[i][1], seen[k][i]) /\ DLe(seen[k][i], range[i][2])
       /\ \E k \in Numbers(i) : DEq(range[i][1], seen[k][i])
       /\ \E k \in Numbers(i) : DEq(range[i][2], seen[k][i])
\* Swapping neighbours changes nothing.
Fold(t) == FoldLeft(Grown, NoRange, t)
OrderFree ==
  \A k \in 1..(Len(seen) - 1) :
    LET t == [seen EXCEPT ![k] = seen[k + 1], ![k + 1] = seen[k]]
        g == Fold(t)
    IN  \A i \in 1..4 : IF range[i] = <<>> THEN g[i] = <<>> ELSE DEq(g[i][1], range[i][1]) /\ DEq(g[i][2], range[i][2])
\* Comparison: symmetric, and reflexive exactly without not-a-number.
Compares == \A j, k \in 1..Len(seen) :
  /\ Equal4(seen[j], seen[k]) = Equal4(seen[k], seen[j])
  /\ Equal4(seen[j], seen[j]) = (\A i \in 1..4 : ~IsNaN(seen[j][i]))
  /\ \A m \in 1..Len(seen) : Equal4(seen[j], seen[k]) /\ Equal4(seen[k], seen[m]) => Equal4(seen[j], seen[m])
\* Ranges only grow.
Widens == [][\A i \in 1..4 : range[i] # <<>> => range'[i] # <<>> /\ DLe(range'[i][1], range[i][1]) /\ DLe(range[i][2], range'[i][2])]_vars
=============================================================================
