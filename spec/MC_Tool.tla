------------------------------- MODULE MC_Tool -------------------------------
(* Every run of the tool over small worlds with up to MaxFaults bad steps.  *)
EXTENDS Tool
CONSTANTS MaxFaults, MaxOut
VARIABLES w, done, files, doc, said, exit
vars == <<w, done, files, doc, said, exit>>

Worlds ==
  {x \in [in : {"file"}, out : {"embed", "dir"}, ns : 1..2, idx : BOOLEAN, nv : 1..MaxOut, ni : 0..MaxOut, tr : BOOLEAN,
          help : BOOLEAN, faults : {{}}] : x.help => x.ns = 1 /\ x.nv = 1 /\ x.ni = 0 /\ ~x.tr /\ ~x.idx}
SmallSets(S) == {{}} \cup {{a} : a \in S} \cup (IF MaxFaults > 1 THEN {{a, b} : a \in S, b \in S} ELSE {})
\* One kind of fault per step is enough here.
Bad(x) == {[x EXCEPT !.faults = F] : F \in SmallSets({<<s[1], s[2], "any">> : s \in {q \in Steps(x) : Kinds(x, q) # {}}})}

Init ==
  /\ \E x \in Worlds : IF x.help THEN w = x ELSE w \in Bad(x)
  /\ done = {} /\ files = [s \in Named(w) |-> "none"] /\ doc = "none" /\ said = FALSE /\ exit = -1

Ready(s) == exit = -1 /\ s \in Steps(w) \ done /\ Deps(w, s) \subseteq done
Do(s) ==
  /\ Ready(s) /\ ~Struck(w, s)
  /\ done' = done \cup {s}
  /\ files' = IF s \in Named(w) THEN [files EXCEPT ![s] = "whole"] ELSE files
  /\ doc' = IF s[1] = "stdout" THEN "whole" ELSE doc
  /\ exit' = IF done' = Steps(w) \/ (s[1] = "args" /\ w.help) THEN 0 ELSE exit
  /\ UNCHANGED <<w, said>>
  /\ s[1] = "args" => TRUE
Fail(s) ==
  /\ Ready(s) /\ Struck(w, s)
  /\ said' = TRUE /\ exit' = 1
  /\ IF s \in Named(w) THEN \E r \in {"none", "partial"} : files' = [files EXCEPT ![s] = r] ELSE files' = files
  /\ IF s[1] = "stdout" THEN doc' \in {"none", "partial"} ELSE doc' = doc
  /\ UNCHANGED <<w, done>>
Next == \E s \in Steps(w) : Do(s) \/ Fail(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == {s \in Named(w) : files[s] = "whole"}
Outcome == exit # -1 => OutcomeOk(w, exit, said, doc, Whole)
DocLast == doc = "whole" => Whole = Named(w) /\ ~said
NoDocEarly == doc # "none" => \A s \in Steps(w) : s[1] # "stdout" => s \in done
Ends == <>(exit # -1)
Final == [][exit = -1]_vars
=============================================================================
