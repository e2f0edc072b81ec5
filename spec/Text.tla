-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of one-character strings, and letter case.          *)
EXTENDS Integers, Sequences

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
LOCAL Upper == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOCAL Low == Chars("abcdefghijklmnopqrstuvwxyz")
LOCAL UpperSet == {Upper[i] : i \in 1..26}
LOCAL LowerMap == [c \in UpperSet |-> Low[CHOOSE i \in 1..26 : Upper[i] = c]]
LowerChar(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerChar(SubSeq(s, i, i))]
SameName(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)
=============================================================================
