------------------------------ MODULE XArrayMC ------------------------------
(* Chunked regridding: the chunks of a variable are done in any order, by any number of workers, each field of a chunk
   alone.  Checked to give XArray!Regridded.  The shapes and chunkings are replayed on the real code. *)
EXTENDS XArray, TLC, Json
CONSTANTS MaxDims, MaxSize, MaxFields, MaxChunks
Shapes == {s \in UNION {[1..n -> 1..MaxSize] : n \in 0..MaxDims} : Prod(s) <= MaxFields}
VARIABLES sizes, chunks, todo, out
vars == <<sizes, chunks, todo, out>>
Chunkings(s) == {c \in [1..Len(s) -> 1..4] : \A k \in 1..Len(s) : c[k] <= s[k]}
\* a chunk is known by its number along each dimension
Blocks(s, c) == {b \in [1..Len(s) -> 0..4] : \A k \in 1..Len(s) : b[k] * c[k] < s[k]}
BlockSize(b, s, c) == [k \in 1..Len(s) |-> IF (b[k] + 1) * c[k] > s[k] THEN s[k] - b[k] * c[k] ELSE c[k]]
In(s) == [outer |-> [k \in 1..Len(s) |-> <<"t", "level", "number">>[k]], sizes |-> s, slices |-> [n \in 1..Prod(s) |-> n]]
T == [dims |-> <<"values">>, sizes |-> <<48>>]
Init == /\ sizes \in Shapes /\ chunks \in Chunkings(sizes) /\ Cardinality(Blocks(sizes, chunks)) <= MaxChunks
        /\ todo = Blocks(sizes, chunks) /\ out = [n \in 1..Prod(sizes) |-> 0]
\* the fields of a chunk, in the order of the chunk, into their places
Fields(b) == LET bs == BlockSize(b, sizes, chunks) IN
   [n \in 1..Prod(bs) |-> LET ix == CHOOSE ix \in Combos(bs) : Place(ix, bs) = n
                          IN [from |-> Place([k \in 1..Len(bs) |-> b[k] * chunks[k] + ix[k]], sizes), at |-> n]]
Do(b) == /\ b \in todo /\ todo' = todo \ {b}
         /\ out' = [n \in DOMAIN out |-> IF \E f \in DOMAIN Fields(b) : Fields(b)[f].from = n THEN In(sizes).slices[n] ELSE out[n]]
         /\ UNCHANGED <<sizes, chunks>>
Next == \E b \in todo : Do(b)
Spec == Init /\ [][Next]_vars
Complete == todo = {} => [dims |-> In(sizes).outer \o T.dims, sizes |-> sizes \o T.sizes, slices |-> out] = Regridded(In(sizes), T)
\* a field is done once
Once == \A b1 \in Blocks(sizes, chunks) : \A b2 \in Blocks(sizes, chunks) : b1 # b2 =>
           {Fields(b1)[f].from : f \in DOMAIN Fields(b1)} \cap {Fields(b2)[f].from : f \in DOMAIN Fields(b2)} = {}
Emit == todo = Blocks(sizes, chunks) => PrintT("@SHAPE " \o ToJson([sizes |-> sizes, chunks |-> chunks]))
=============================================================================
