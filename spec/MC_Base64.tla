------------------------------ MODULE MC_Base64 ------------------------------
(***************************************************************************)
(* A decoder consuming a text group by group against the definition, and   *)
(* the definition against the encoder, for all short texts over an         *)
(* alphabet of representative characters.                                  *)
(***************************************************************************)
EXTENDS Base64
CONSTANTS Len64, Bytes
VARIABLES text, at, out, status
vars == <<text, at, out, status>>
Sample == {65, 122, 47, 61, 45, 81}
Texts == UNION {[1..n -> Sample] : n \in 0..Len64}
Datas == UNION {[1..n -> Bytes] : n \in 0..4}
Init == text \in Texts \cup {Encode64(d) : d \in Datas} /\ at = 1 /\ out = <<>> /\ status = "run"
Step ==
  /\ status = "run" /\ UNCHANGED text
  /\ IF at > Len(text) THEN status' = "ok" /\ UNCHANGED <<at, out>>
     ELSE IF Len(text) - at < 3 THEN status' = "no" /\ UNCHANGED <<at, out>>
     ELSE LET g == SubSeq(text, at, at + 3) p == Pads(g) IN
          IF p < 0 \/ (p > 0 /\ Len(text) > at + 3) THEN status' = "no" /\ UNCHANGED <<at, out>>
          ELSE out' = out \o GroupBytes(g) /\ at' = at + 4 /\ UNCHANGED status
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Decides == status # "run" => ((status = "ok") = Valid64(text)) /\ (status = "ok" => out = Decode64(text))
Stops == <>(status # "run")
EncodeValid == \A d \in Datas : Canonical64(Encode64(d)) /\ Decode64(Encode64(d)) = d
LengthRight == \A d \in Datas : Len(Encode64(d)) = 4 * ((Len(d) + 2) \div 3)
ASSUME EncodeValid /\ LengthRight
=============================================================================
