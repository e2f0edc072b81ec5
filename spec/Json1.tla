-------------------------------- MODULE Json1 --------------------------------
(***************************************************************************)
(* Well-formed JSON as a pushdown automaton over the bytes of a text.      *)
(*                                                                         *)
(* The state is [q, st]: a control state and the stack of open brackets.   *)
(* "bad" is the refusing sink; "vague" marks texts on which parsers        *)
(* legitimately differ (huge exponents, escaped surrogates and zeros, raw  *)
(* control characters other than the ones JSON names): nothing is claimed  *)
(* about these unless they are refused for another reason too.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Ws == {32, 9, 10, 13}
LOCAL Dig == 48..57
LOCAL Hex == Dig \cup (65..70) \cup (97..102)

\* Control states:
\*  val     a value is due            arr0  a value or ]      key0  a member name or }
\*  key     a member name is due      colon : is due          end   after a value
\*  str esc u1..u4 (inside a string; kstr.. for names)
\*  neg int zero dot frac e esign exp (numbers)   t1.. (literals as the rest due)
PdaStart == [q |-> "val", st |-> <<>>, lit |-> <<>>, name |-> FALSE, vague |-> FALSE, ed |-> 0]

LOCAL Bad(s) == [s EXCEPT !.q = "bad"]
LOCAL Go(s, q) == [s EXCEPT !.q = q]
LOCAL Push(s, c, q) == [s EXCEPT !.q = q, !.st = Append(@, c)]
LOCAL Top(s) == IF s.st = <<>> THEN 0 ELSE s.st[Len(s.st)]
LOCAL Pop(s) == [s EXCEPT !.q = "end", !.st = SubSeq(@, 1, Len(@) - 1)]
LOCAL Lit(s, r) == [s EXCEPT !.q = "lit", !.lit = r]

LOCAL Value(s, c) ==
  CASE c \in Ws -> s
    [] c = 123 -> Push(s, 123, "key0")
    [] c = 91 -> Push(s, 91, "arr0")
    [] c = 34 -> [s EXCEPT !.q = "str", !.name = FALSE]
    [] c = 45 -> Go(s, "neg")
    [] c = 48 -> Go(s, "zero")
    [] c \in 49..57 -> Go(s, "int")
    [] c = 116 -> Lit(s, <<114, 117, 101>>)
    [] c = 102 -> Lit(s, <<97, 108, 115, 101>>)
    [] c = 110 -> Lit(s, <<117, 108, 108>>)
    [] OTHER -> Bad(s)

LOCAL After(s, c) ==          \* after a complete value
  CASE c \in Ws -> Go(s, "end")
    [] c = 44 /\ Top(s) = 123 -> Go(s, "key")
    [] c = 44 /\ Top(s) = 91 -> Go(s, "val")
    [] c = 125 /\ Top(s) = 123 -> Pop(s)
    [] c = 93 /\ Top(s) = 91 -> Pop(s)
    [] OTHER -> Bad(s)

LOCAL Numeric == {"zero", "int", "frac", "exp"}

PdaStep(s, c) ==
  CASE s.q = "bad" -> s
    [] s.q = "val" -> Value(s, c)
    [] s.q = "arr0" -> IF c = 93 THEN Pop(s) ELSE IF c \in Ws THEN s ELSE Value(s, c)
    [] s.q \in {"key0", "key"} ->
         IF c \in Ws THEN s
         ELSE IF c = 34 THEN [s EXCEPT !.q = "str", !.name = TRUE]
         ELSE IF c = 125 /\ s.q = "key0" THEN Pop(s) ELSE Bad(s)
    [] s.q = "colon" -> IF c \in Ws THEN s ELSE IF c = 58 THEN Go(s, "val") ELSE Bad(s)
    [] s.q = "end" -> After(s, c)
    [] s.q = "str" ->
         IF c = 34 THEN Go(s, IF s.name THEN "colon" ELSE "end")
         ELSE IF c = 92 THEN Go(s, "esc")
         ELSE IF c < 32 THEN Bad(s)
         ELSE s
    [] s.q = "esc" -> IF c \in {34, 92, 47, 98, 102, 110, 114, 116} THEN Go(s, "str")
                      ELSE IF c = 117 THEN Go(s, "u1") ELSE Bad(s)
    [] s.q \in {"u1", "u2", "u3", "u4"} ->
         IF c \notin Hex THEN Bad(s)
         ELSE CASE s.q = "u1" -> [s EXCEPT !.q = "u2", !.ed = IF c \in {68, 100} THEN 1 ELSE IF c = 48 THEN 2 ELSE 0]
                [] s.q = "u2" -> [s EXCEPT !.q = "u3", !.vague = @ \/ (s.ed = 1 /\ c \notin 48..55),
                                           !.ed = IF s.ed = 2 /\ c = 48 THEN 2 ELSE 0]
                [] s.q = "u3" -> [s EXCEPT !.q = "u4", !.ed = IF s.ed = 2 /\ c = 48 THEN 2 ELSE 0]
                [] OTHER -> [s EXCEPT !.q = "str", !.vague = @ \/ (s.ed = 2 /\ c = 48), !.ed = 0]
    [] s.q = "neg" -> IF c = 48 THEN Go(s, "zero") ELSE IF c \in 49..57 THEN Go(s, "int") ELSE Bad(s)
    [] s.q = "zero" -> IF c = 46 THEN Go(s, "dot") ELSE IF c \in {69, 101} THEN Go(s, "e") ELSE After(s, c)
    [] s.q = "int" -> IF c \in Dig THEN s ELSE IF c = 46 THEN Go(s, "dot") ELSE IF c \in {69, 101} THEN Go(s, "e") ELSE After(s, c)
    [] s.q = "dot" -> IF c \in Dig THEN Go(s, "frac") ELSE Bad(s)
    [] s.q = "frac" -> IF c \in Dig THEN s ELSE IF c \in {69, 101} THEN Go(s, "e") ELSE After(s, c)
    [] s.q = "e" -> IF c \in {43, 45} THEN Go(s, "esign") ELSE IF c \in Dig THEN [s EXCEPT !.q = "exp", !.ed = 1] ELSE Bad(s)
    [] s.q = "esign" -> IF c \in Dig THEN [s EXCEPT !.q = "exp", !.ed = 1] ELSE Bad(s)
    [] s.q = "exp" -> IF c \in Dig THEN [s EXCEPT !.ed = @ + 1, !.vague = @ \/ s.ed >= 2] ELSE After(s, c)
    [] s.q = "lit" -> IF c # s.lit[1] THEN Bad(s)
                      ELSE IF Len(s.lit) = 1 THEN Go(s, "end") ELSE [s EXCEPT !.lit = Tail(@)]
    [] OTHER -> Bad(s)

PdaRun(text) == FoldLeft(PdaStep, PdaStart, text)
PdaAccepts(s) == s.st = <<>> /\ s.q \in (Numeric \cup {"end"})
\* "yes", "no" or "vague".
WellFormed(text) ==
  LET s == PdaRun(text) IN IF ~PdaAccepts(s) THEN "no" ELSE IF s.vague THEN "vague" ELSE "yes"
=============================================================================
