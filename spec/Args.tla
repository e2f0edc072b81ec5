-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* The tool's command line as a machine that reads one argument at a time. *)
(* The state is [v, want, input, output]: v the verdict so far ("go",      *)
(* "help" or "error", the latter two final), want the option whose value   *)
(* is due, and the names given last.  An empty name is none.               *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt

ArgStart == [v |-> "go", want |-> "", input |-> "", output |-> ""]
HelpArgs == {"-h", "--help"}
InputArgs == {"-i", "--input"}
OutputArgs == {"-o", "--output"}

ArgStep(s, a) ==
  CASE s.v # "go" -> s
    [] s.want = "input" -> [s EXCEPT !.want = "", !.input = a]
    [] s.want = "output" -> [s EXCEPT !.want = "", !.output = a]
    [] a \in HelpArgs -> [s EXCEPT !.v = "help"]
    [] a \in InputArgs -> [s EXCEPT !.want = "input"]
    [] a \in OutputArgs -> [s EXCEPT !.want = "output"]
    [] OTHER -> [s EXCEPT !.v = "error"]
\* An option without its value is an error.
ArgEnd(s) == IF s.v = "go" /\ s.want # "" THEN [s EXCEPT !.v = "error"] ELSE s
ArgRun(args) == ArgEnd(FoldLeft(ArgStep, ArgStart, args))
=============================================================================
