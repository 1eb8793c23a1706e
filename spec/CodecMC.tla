------------------------------ MODULE CodecMC ------------------------------
(* All matrices up to a shape and all sparsity patterns; all wrong or missing tags. *)
EXTENDS Codec, Json
CONSTANTS MaxRows, MaxCols
VARIABLES m, f
Cells(r, c) == {<<i, j>> : i \in 0..(r - 1), j \in 0..(c - 1)}
RECURSIVE Order(_, _)
Order(S, c) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE x \in S : \A y \in S : x[1] * c + x[2] <= y[1] * c + y[2]
                    IN <<<<x[1], x[2], x[1] * c + x[2] + 1>>>> \o Order(S \ {x}, c)
MCInit == /\ \E r \in 1..MaxRows, c \in 1..MaxCols : \E S \in SUBSET Cells(r, c) : m = [rows |-> r, cols |-> c, trip |-> Order(S, c)]
          /\ f = Encode(m)
MCNext == UNCHANGED <<m, f>>
MCSpec == MCInit /\ [][MCNext]_<<m, f>>
RoundTrip == Decode(f) = m
OuterInv == /\ Len(f.outer) = f.rows + 1 /\ f.outer[1] = 0 /\ f.outer[f.rows + 1] = Len(f.data)
            /\ \A r \in 1..f.rows : f.outer[r] <= f.outer[r + 1]
\* the reader accepts the expected items only
ReaderInv == /\ Reads(Expected, Expected) = "ok"
             /\ \A n \in 0..9 : Reads(SubSeq(Expected, 1, n), Expected) = "error"
             /\ \A n \in 1..10, t \in 0..22 : (Reads([Expected EXCEPT ![n] = t], Expected) = "ok") <=> (t = Expected[n])
             /\ \A n \in 0..9 : Reads(SubSeq(Expected, 1, n) \o <<TagEnd>> \o SubSeq(Expected, n + 1, 10), Expected) = "ok"
Out == PrintT("@CASE " \o ToJson(f))
=============================================================================
