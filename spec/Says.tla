--------------------------------- MODULE Says ---------------------------------
(***************************************************************************)
(* What error messages name.  A problem is a sequence of names; a message  *)
(* fits it if it quotes them all, and one without names if it quotes none. *)
(***************************************************************************)
EXTENDS Naturals, Sequences

HasText(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
Quotes(m, n) == HasText(m, "'" \o n \o "'")
Fits(m, problem) == IF problem = <<>> THEN ~HasText(m, "'") ELSE \A i \in 1..Len(problem) : Quotes(m, problem[i])
\* Every message names a real problem.
Justified(msgs, problems) == msgs # <<>> /\ \A i \in 1..Len(msgs) : \E p \in problems : Fits(msgs[i], p)
\* Every one of the names is named by a message of its own.
AllNamed(msgs, names) == \A n \in names : \E i \in 1..Len(msgs) : Fits(msgs[i], <<n>>)
=============================================================================
