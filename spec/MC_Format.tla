------------------------------ MODULE MC_Format ------------------------------
(* All histories of appends and clears over a small alphabet.              *)
EXTENDS Format, FiniteSets
CONSTANTS Depth, Wide
VARIABLES f, r, n
vars == <<f, r, n>>

Names == {"a", "A", "b", "aa"}
Combos == IF Wide THEN {<<l, t>> : l \in Layouts \cup {"Invalid"}, t \in Types \cup {"Invalid"}}
          ELSE {<<"X8", "UNorm">>, <<"X16Y16Z16", "Float">>, <<"E5Z9Y9X9_UFloat", "Float">>,
                <<"X8Y8Z8", "Float">>, <<"Invalid", "UInt">>}
Elems == {[n |-> x, l |-> c[1], t |-> c[2]] : x \in Names, c \in Combos}

Init == f = <<>> /\ r = RNew /\ n = 0
Add == \E e \in Elems : f' = Appended(f, e) /\ r' = RAppend(r, e)
Clear == f' = <<>> /\ r' = RNew
Next == n < Depth /\ n' = n + 1 /\ (Add \/ Clear)
Spec == Init /\ [][Next]_vars

\* The running record describes the list.
Refines == /\ r.els = Described(f).els /\ r.stride = FStride(f)
           /\ \A i \in 1..Len(f) : r.els[i] = [n |-> f[i].n, l |-> f[i].l, t |-> f[i].t, o |-> FOffset(f, i)]
\* No gaps, no overlap.
Packed == \A i \in 1..Len(f) : FOffset(f, i) + LayoutSize(f[i].l) = FOffset(f, i + 1)
Unique == Cardinality(FNames(f)) = Len(f)
Found == \A x \in Names : LET p == FPos(f, x) IN (p = 0) = (x \notin FNames(f)) /\ (p > 0 => f[p].n = x)
OnlyValid == \A i \in 1..Len(f) : ElementValid(f[i].l, f[i].t)
\* Accepted elements stay where they are.
Stable == [][f' = <<>> \/ SubSeq(f', 1, Len(f)) = f]_vars
=============================================================================
