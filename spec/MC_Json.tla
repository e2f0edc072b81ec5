------------------------------- MODULE MC_Json -------------------------------
(***************************************************************************)
(* The automaton on all texts over representative bytes, against a grammar *)
(* for the same fragment written as a recursive recogniser.                *)
(***************************************************************************)
EXTENDS Json1, FiniteSets
CONSTANT MaxLen
VARIABLES text, s
vars == <<text, s>>
\* { } [ ] , : " 1 0 - . e
Bytes == {123, 125, 91, 93, 44, 58, 34, 49, 48, 45, 46, 101}
Init == text = <<>> /\ s = PdaStart
Next == /\ Len(text) < MaxLen /\ s.q # "bad"
        /\ \E c \in Bytes : text' = Append(text, c) /\ s' = PdaStep(s, c)
Spec == Init /\ [][Next]_vars

\* The set of positions a construct starting at i can end before.
Is(i, c) == i <= Len(text) /\ text[i] = c
RECURSIVE Val(_), Elems(_), Members(_), Digits(_)
Digits(i) == IF i <= Len(text) /\ text[i] \in {48, 49} THEN {i + 1} \cup Digits(i + 1) ELSE {}
\* Maximal digit strings only, since a number is not followed by a digit.
LongestDigits(i) == LET D == Digits(i) IN IF D = {} THEN 0 ELSE CHOOSE x \in D : \A y \in D : y <= x
Num(i) ==
  LET a == IF Is(i, 45) THEN i + 1 ELSE i
      b == IF Is(a, 48) THEN a + 1 ELSE IF Is(a, 49) THEN LongestDigits(a) ELSE 0
      c == IF b # 0 /\ Is(b, 46) THEN LongestDigits(b + 1) ELSE b
      e == IF c # 0 /\ Is(c, 101)
           THEN LongestDigits(IF Is(c + 1, 45) THEN c + 2 ELSE c + 1) ELSE c
  IN  e
Str(i) == IF Is(i, 34) /\ \E k \in (i + 1)..Len(text) : text[k] = 34
          THEN (CHOOSE k \in (i + 1)..Len(text) : text[k] = 34 /\ \A m \in (i + 1)..(k - 1) : text[m] # 34) + 1 ELSE 0
Val(i) == IF i = 0 THEN 0
          ELSE IF Is(i, 34) THEN Str(i)
          ELSE IF Is(i, 91) THEN (IF Is(i + 1, 93) THEN i + 2 ELSE Elems(i + 1))
          ELSE IF Is(i, 123) THEN (IF Is(i + 1, 125) THEN i + 2 ELSE Members(i + 1))
          ELSE Num(i)
Elems(i) == LET v == Val(i) IN IF v = 0 THEN 0 ELSE IF Is(v, 93) THEN v + 1 ELSE IF Is(v, 44) THEN Elems(v + 1) ELSE 0
Members(i) ==
  LET k == Str(i) v == IF k # 0 /\ Is(k, 58) THEN Val(k + 1) ELSE 0
  IN  IF v = 0 THEN 0 ELSE IF Is(v, 125) THEN v + 1 ELSE IF Is(v, 44) THEN Members(v + 1) ELSE 0
Agree == PdaAccepts(s) = (text # <<>> /\ Val(1) = Len(text) + 1)
\* Nothing well-formed extends a refused text.
Sink == s.q = "bad" => ~PdaAccepts(s)
=============================================================================
