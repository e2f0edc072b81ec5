------------------------------- MODULE Base64 -------------------------------
(* RFC 4648 base64 with padding; texts and data are sequences of bytes.    *)
EXTENDS Integers, Sequences, SequencesExt

Digit(c) == CASE c \in 65..90 -> c - 65
              [] c \in 97..122 -> c - 71
              [] c \in 48..57 -> c + 4
              [] c = 43 -> 62
              [] c = 47 -> 63
              [] OTHER -> -1
Alphabet == [d \in 0..63 |-> CASE d < 26 -> d + 65 [] d < 52 -> d + 71 [] d < 62 -> d - 4 [] d = 62 -> 43 [] OTHER -> 47]
PadChar == 61

\* F(1) \o ... \o F(n).
Flat(n, F(_)) ==
  FlattenSeq([c \in 1..((n + 999) \div 1000) |->
    FlattenSeq([g \in 1..(IF 1000 * c <= n THEN 1000 ELSE n % 1000) |-> F(1000 * (c - 1) + g)])])

\* One to three bytes as four characters.
Group(b) ==
  LET x(i) == IF i <= Len(b) THEN b[i] ELSE 0
      n == x(1) * 65536 + x(2) * 256 + x(3)
  IN  <<Alphabet[n \div 262144], Alphabet[(n \div 4096) % 64],
        IF Len(b) > 1 THEN Alphabet[(n \div 64) % 64] ELSE PadChar,
        IF Len(b) > 2 THEN Alphabet[n % 64] ELSE PadChar>>
Encode64(b) ==
  Flat((Len(b) + 2) \div 3, LAMBDA g : Group(SubSeq(b, 3 * g - 2, IF 3 * g < Len(b) THEN 3 * g ELSE Len(b))))

\* Padding of a group: 0, 1 or 2 characters, -1 for an invalid group.
Pads(g) == CASE \A i \in 1..4 : Digit(g[i]) >= 0 -> 0
             [] (\A i \in 1..3 : Digit(g[i]) >= 0) /\ g[4] = PadChar -> 1
             [] (\A i \in 1..2 : Digit(g[i]) >= 0) /\ g[3] = PadChar /\ g[4] = PadChar -> 2
             [] OTHER -> -1
At(t, g) == SubSeq(t, 4 * g - 3, 4 * g)
Valid64(t) ==
  /\ Len(t) % 4 = 0
  /\ \A g \in 1..(Len(t) \div 4) : LET p == Pads(At(t, g)) IN p = 0 \/ (p > 0 /\ g = Len(t) \div 4)
GroupBytes(g) ==
  LET d(i) == IF Digit(g[i]) >= 0 THEN Digit(g[i]) ELSE 0
      n == d(1) * 262144 + d(2) * 4096 + d(3) * 64 + d(4)
  IN  SubSeq(<<n \div 65536, (n \div 256) % 256, n % 256>>, 1, 3 - Pads(g))
Decode64(t) == Flat(Len(t) \div 4, LAMBDA g : GroupBytes(At(t, g)))
\* The bits behind the last byte are zero.
Canonical64(t) == Valid64(t) /\ Encode64(Decode64(t)) = t
=============================================================================
