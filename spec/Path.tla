-------------------------------- MODULE Path --------------------------------
(* Slash-separated paths as sequences of bytes.                            *)
EXTENDS Integers, Sequences, SequencesExt

Sep == 47
IsAbs(p) == p # <<>> /\ p[1] = Sep
LastSep(p) == IF \E i \in 1..Len(p) : p[i] = Sep
              THEN CHOOSE i \in 1..Len(p) : p[i] = Sep /\ \A k \in (i + 1)..Len(p) : p[k] # Sep ELSE 0
FileName(p) == SubSeq(p, LastSep(p) + 1, Len(p))
Parent(p) == CASE LastSep(p) = 0 -> <<>> [] LastSep(p) = 1 -> <<Sep>> [] OTHER -> SubSeq(p, 1, LastSep(p) - 1)
Join(a, b) == CASE a = <<>> \/ IsAbs(b) -> b
                [] b = <<>> -> a
                [] a[Len(a)] = Sep -> a \o b
                [] OTHER -> a \o <<Sep>> \o b

\* What a path names: absolute or not, and its components.
Components(p) ==
  LET f == FoldLeft(LAMBDA acc, c : IF c = Sep THEN [cur |-> <<>>, all |-> IF acc.cur = <<>> THEN acc.all ELSE Append(acc.all, acc.cur)]
                                    ELSE [acc EXCEPT !.cur = Append(@, c)], [cur |-> <<>>, all |-> <<>>], p)
  IN  IF f.cur = <<>> THEN f.all ELSE Append(f.all, f.cur)
Names(p) == <<IsAbs(p), Components(p)>>
=============================================================================
