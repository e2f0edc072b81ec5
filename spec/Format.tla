------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* A vertex format as an abstract list of elements [n, l, t], and the      *)
(* running record an implementation keeps: offsets and a stride.           *)
(***************************************************************************)
EXTENDS Codec

\* The abstract list.
FNames(f) == {f[i].n : i \in 1..Len(f)}
AppendResult(f, e) ==
  IF ~ElementValid(e.l, e.t) THEN "inv" ELSE IF e.n \in FNames(f) THEN "dup" ELSE "ok"
Appended(f, e) == IF AppendResult(f, e) = "ok" THEN Append(f, e) ELSE f
FOffset(f, i) == FoldLeft(LAMBDA a, e : a + LayoutSize(e.l), 0, SubSeq(f, 1, i - 1))
FStride(f) == FOffset(f, Len(f) + 1)
FPos(f, n) == IF n \in FNames(f) THEN CHOOSE i \in 1..Len(f) : f[i].n = n ELSE 0
FContains(f, g) == FNames(g) \subseteq FNames(f)

\* Everything observable; the offsets in one pass (MC_Format: the same as FOffset).
Placed(f) ==
  FoldLeft(LAMBDA r, e : [els |-> Append(r.els, [n |-> e.n, l |-> e.l, t |-> e.t, o |-> r.stride]),
                          stride |-> r.stride + LayoutSize(e.l)],
           [els |-> <<>>, stride |-> 0], f)
Described(f) == LET p == Placed(f)
                IN  [els |-> p.els, stride |-> p.stride, size |-> Len(f), empty |-> f = <<>>]

\* The running record.
RNew == [els |-> <<>>, stride |-> 0]
RAppend(r, e) ==
  IF ~ElementValid(e.l, e.t) \/ \E i \in 1..Len(r.els) : r.els[i].n = e.n THEN r
  ELSE [els |-> Append(r.els, [n |-> e.n, l |-> e.l, t |-> e.t, o |-> r.stride]),
        stride |-> r.stride + LayoutSize(e.l)]
=============================================================================
