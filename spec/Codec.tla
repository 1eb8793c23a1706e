------------------------------- MODULE Codec -------------------------------
(* The engine's weights files: a sequence of tagged items holding a matrix in compressed row
   form; and what reading one gives.  Grid definition files: tagged coordinates.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TagEnd == 2  TagInt == 5  TagULong == 10  TagDouble == 14  TagLargeBlob == 21
\* the items of a file
Expected == <<TagULong, TagULong, TagULong, TagInt, TagULong, TagULong, TagULong, TagLargeBlob, TagLargeBlob, TagLargeBlob>>
IndexSize == 4
Scalars == {4, 8}

\* a matrix: rows, cols, and its stored entries in order of row and column
\* compressed row form
RECURSIVE OuterOf(_, _, _)
OuterOf(m, r, n) == IF r > m.rows THEN <<>>
                    ELSE <<n>> \o OuterOf(m, r + 1, n + Cardinality({k \in DOMAIN m.trip : m.trip[k][1] = r}))
Encode(m) == [rows |-> m.rows, cols |-> m.cols, outer |-> OuterOf(m, 0, 0),
              inner |-> [k \in DOMAIN m.trip |-> m.trip[k][2]], data |-> [k \in DOMAIN m.trip |-> m.trip[k][3]]]
\* reading it back: the entries of row r are those from outer[r] to outer[r + 1]
RowOf(f, k) == CHOOSE r \in 1..f.rows : f.outer[r] < k /\ k <= f.outer[r + 1]
Decode(f) == [rows |-> f.rows, cols |-> f.cols, trip |-> [k \in DOMAIN f.data |-> <<RowOf(f, k) - 1, f.inner[k], f.data[k]>>]]
\* size of the items, and of the file
ItemSize(f, s, t) == IF t <= 7 THEN 5 ELSE IF t = 8 THEN 9 + IndexSize * (f.rows + 1) ELSE IF t = 9 THEN 9 + IndexSize * Len(f.inner) ELSE 9 + s * Len(f.data)
RECURSIVE FileSize(_, _, _)
FileSize(f, s, t) == IF t > 10 THEN 0 ELSE ItemSize(f, s, t) + FileSize(f, s, t + 1)

\* the reader: takes the items one by one; an end-of-object mark before an item is skipped;
\* anything else unexpected, or the end of the file, is an error
RECURSIVE Reads(_, _)
Reads(tags, want) ==
  IF want = <<>> THEN "ok"
  ELSE IF tags = <<>> THEN "error"
  ELSE IF Head(tags) = TagEnd THEN Reads(Tail(tags), want)
  ELSE IF Head(tags) = Head(want) THEN Reads(Tail(tags), Tail(want)) ELSE "error"
=============================================================================
