------------------------------ MODULE MC_Index ------------------------------
(* Write-then-read over all short histories of a small array.              *)
EXTENDS Index
CONSTANT Depth
VARIABLES t, mem, ghost, n
vars == <<t, mem, ghost, n>>
Slots == 3
Vals == {<<0, 0>>, <<0, 1>>, <<0, 255>>, <<0, 256>>, <<0, 65535>>, <<1, 0>>, <<65535, 65534>>, <<258, 772>>}
Init == /\ t \in {"UInt16", "UInt32"}
        /\ mem = [k \in 1..(Slots * ISize(t)) |-> 7]
        /\ ghost = [k \in 0..(Slots - 1) |-> IRead(t, [q \in 1..(Slots * ISize(t)) |-> 7], k)]
        /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED t
        /\ \E i \in 0..(Slots - 1), v \in Vals :
             /\ IFits(t, v)
             /\ mem' = IWrite(t, mem, i, v)
             /\ ghost' = [ghost EXCEPT ![i] = v]
Spec == Init /\ [][Next]_vars
ReadsBack == \A i \in 0..(Slots - 1) : IRead(t, mem, i) = ghost[i]
SameSize == Len(mem) = Slots * ISize(t)
=============================================================================
