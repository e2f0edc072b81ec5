------------------------------- MODULE GenTool -------------------------------
(* Writes the worlds to realise: every single fault, and the pairs.         *)
EXTENDS Tool, TLC, Json, IOUtils, SequencesExt
VARIABLE x
Worlds ==
  {y \in [in : {"file", "stdin"}, out : {"embed", "dir"}, ns : 1..2, idx : BOOLEAN, nv : 1..2, ni : 0..2, tr : BOOLEAN,
          help : {FALSE}, faults : {{}}] : y.nv <= y.ns + 1 /\ (y.ni = 2 => y.out = "dir")}
Single == UNION {{[y EXCEPT !.faults = {f}] : f \in Faults(y)} : y \in Worlds}
\* Pairs in the worlds with the most steps.
Rich == {y \in Worlds : y.ns = 2 /\ y.idx /\ y.nv = 2 /\ y.ni = 1 /\ y.tr}
Pairs == UNION {{[y EXCEPT !.faults = {f, g}] : f \in Faults(y), g \in Faults(y)} : y \in Rich}
Proper == {y \in Pairs : Cardinality({<<f[1], f[2]>> : f \in y.faults}) = 2}
GenInit == x = 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Worlds)) /\ ndJsonSerialize(IOEnv.OUT2, SetToSeq(Single))
           /\ ndJsonSerialize(IOEnv.OUT3, SetToSeq(Proper))
GenNext == FALSE /\ x' = x
=============================================================================
