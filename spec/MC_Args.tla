------------------------------- MODULE MC_Args -------------------------------
(* All short command lines: how options act on each other.                 *)
EXTENDS Args, Naturals
CONSTANT Depth
VARIABLES args, s
vars == <<args, s>>
Words == {"-h", "--help", "-i", "--input", "-o", "--output", "a", "", "x"}
Init == args = <<>> /\ s = ArgStart
Next == /\ Len(args) < Depth
        /\ \E w \in Words : args' = Append(args, w) /\ s' = ArgStep(s, w)
Spec == Init /\ [][Next]_vars

\* Written out: the options stand at the places not taken as values.
RECURSIVE Places(_)
Places(k) == IF k > Len(args) THEN {}
             ELSE {k} \cup Places(IF args[k] \in InputArgs \cup OutputArgs THEN k + 2 ELSE k + 1)
Opts == Places(1)
Stops == {k \in Opts : args[k] \notin InputArgs \cup OutputArgs}
Cut == {k \in Opts : args[k] \in InputArgs \cup OutputArgs /\ k = Len(args)}
Earliest(S) == CHOOSE k \in S : \A j \in S : k <= j
Latest(S) == CHOOSE k \in S : \A j \in S : k >= j
Given(O) == {k \in Opts : args[k] \in O}
Agree ==
  LET r == ArgEnd(s) IN
  IF Stops # {} THEN r.v = (IF args[Earliest(Stops)] \in HelpArgs THEN "help" ELSE "error")
  ELSE IF Cut # {} THEN r.v = "error"
  ELSE /\ r.v = "go"
       /\ r.input = (IF Given(InputArgs) = {} THEN "" ELSE args[Latest(Given(InputArgs)) + 1])
       /\ r.output = (IF Given(OutputArgs) = {} THEN "" ELSE args[Latest(Given(OutputArgs)) + 1])
\* Short and long forms are the same.
Long(a) == CASE a = "-h" -> "--help" [] a = "-i" -> "--input" [] a = "-o" -> "--output" [] OTHER -> a
SameForms == s.want = "" => LET t == FoldLeft(ArgStep, ArgStart, [k \in 1..Len(args) |-> IF k \in Opts THEN Long(args[k]) ELSE args[k]]) IN t = s
Final == [][s.v # "go" => s' = s]_vars
=============================================================================
