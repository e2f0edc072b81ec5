----------------------------- MODULE ApiAlphabet -----------------------------
(* A small alphabet of calls that reaches every rule of the protocol. *)
EXTENDS Api

El(n) == [n |-> n, l |-> "X8", t |-> "UInt"]
A == <<El("a")>>
B == <<El("b")>>
AB == <<El("a"), El("b")>>
ZA == <<El("z"), El("a")>>
Z == <<El("z")>>
BA == <<El("b"), El("a")>>

Seq0(n, k) == [i \in 1..n |-> 10 * k + i]
Add(fmt, data, vcount, itype, idx) ==
  [op |-> "add", fmt |-> fmt, data |-> data, vcount |-> vcount, itype |-> itype, idx |-> idx,
   nodata |-> FALSE, noidx |-> FALSE, buf |-> 0]

New(out, itype, prim, patch, max) ==
  [op |-> "new", out |-> out, itype |-> itype, prim |-> prim, patch |-> patch, max |-> max, single |-> TRUE]

Cfgs == <<
  New(<<AB>>, "UInt16", "TriangleStrip", 0, <<0, 3>>),
  New(<<A, B>>, "UInt32", "TriangleList", 0, <<-1, -1>>),
  New(<<A>>, "None", "LineStrip", 0, <<-1, -1>>),
  New(<<B, ZA>>, "UInt16", "PointList", 0, <<0, 0>>),
  New(<<A>>, "UInt16", "PatchList", 3, <<0, 4>>),
  New(<< <<>> >>, "UInt16", "PointList", 0, <<-1, -1>>),
  New(<<A>>, "UInt16", "TriangleFan", 0, <<0, 65535>>),
  New(<<A, AB>>, "UInt32", "LineList", 0, <<-1, -1>>),          \* a name in two output formats
  New(<<ZA, B>>, "UInt32", "LineStrip", 0, <<0, 2>>),
  New(<<AB>>, "None", "TriangleStrip", 0, <<-1, -1>>),
  New(<<B>>, "UInt16", "TriangleFan", 0, <<0, 2>>),
  New(<<ZA>>, "UInt32", "PatchList", 2, <<0, 1>>),
  New(<<A, <<>> >>, "None", "PointList", 0, <<-1, -1>>),
  New(<<BA>>, "UInt16", "PatchList", 0, <<-1, -1>>) >>

Calls == <<
  Add(A, Seq0(3, 1), 3, "UInt16", <<0, 1, 2>>),
  Add(B, Seq0(3, 2), 3, "None", <<>>),
  Add(AB, Seq0(12, 3), 6, "UInt32", <<5, 4, 3, 2, 1, 0>>),
  Add(Z, Seq0(6, 4), 6, "None", <<>>),
  Add(ZA, Seq0(12, 5), 6, "UInt16", <<0, 1, 2, 0, 4, 2>>),
  [Add(B, Seq0(2, 6), 2, "UInt16", <<0, 1, 2>>) EXCEPT !.buf = 1],             \* out of range
  [Add(A, Seq0(6, 7), 6, "UInt16", <<0, 1, 2, -1, 4, 5>>) EXCEPT !.buf = 2],   \* marker
  Add(B, Seq0(1, 8), 1, "UInt32", <<0>>),                       \* one index
  Add(A, <<>>, 0, "UInt16", <<>>),                              \* empty
  [Add(A, Seq0(3, 1), 3, "UInt16", <<0, 1, 2>>) EXCEPT !.nodata = TRUE],
  [Add(B, Seq0(3, 1), 3, "UInt16", <<0, 1, 2>>) EXCEPT !.noidx = TRUE],
  [op |-> "conv"],
  [op |-> "poke", buf |-> 1, itype |-> "UInt16", idx |-> <<1, 0, 1>>],           \* back in range
  [op |-> "poke", buf |-> 2, itype |-> "UInt16", idx |-> <<5, 4, 3, 2, 1, 1>>],  \* the marker is gone
  [op |-> "tr", name |-> "a", t |-> "SNormToUNorm"],
  [op |-> "tr", name |-> "q", t |-> "Bounds"],
  Add(B, Seq0(4, 9), 4, "None", <<>>),                          \* no whole number of triangles
  Add(A, Seq0(1, 9), 1, "None", <<>>),                          \* one vertex
  [op |-> "tr", name |-> "b", t |-> "Bounds"],
  [op |-> "tr", name |-> "a", t |-> "Identity"],
  [op |-> "tr", name |-> "z", t |-> "UNormToSNorm"],
  Add(B, Seq0(6, 10), 6, "UInt32", <<-1, 1, 2, 3, 4, -1>>),     \* markers at both ends
  [Add(Z, Seq0(3, 11), 3, "UInt32", <<3, 1, 0>>) EXCEPT !.buf = 3],             \* out of range
  [op |-> "poke", buf |-> 3, itype |-> "UInt32", idx |-> <<2, 1, 0>>],
  [op |-> "poke", buf |-> 1, itype |-> "UInt16", idx |-> <<-1, 0, 1>>],          \* a marker or out of range
  [op |-> "poke", buf |-> 2, itype |-> "UInt16", idx |-> <<-1, -1, 0, 1, 2, -1>>],
  Add(BA, Seq0(6, 12), 3, "None", <<>>),
  Add(A, Seq0(3, 13), 3, "UInt32", <<2, 2, 2>>),
  [op |-> "move"] >>
\* What histories of limited length are made of; everything else is reached by GenCover.
SomeCfgs == 1..7
SomeCalls == 1..18
=============================================================================
