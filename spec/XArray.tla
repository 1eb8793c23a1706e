------------------------------- MODULE XArray -------------------------------
(* Labelled arrays: a variable is [outer, sizes, slices]: the names of its dimensions but the geographical ones, their
   sizes, and its fields (one for each combination of their indexes, the last index fastest), each a number that
   stands for its content.  Regridding keeps all that, field by field, and replaces the geographical dimensions. *)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* the place of a combination of indexes (from 0) among the fields (from 1)
RECURSIVE Flat(_, _)
Flat(ix, sizes) == IF ix = <<>> THEN 0 ELSE Head(ix) * Prod(Tail(sizes)) + Flat(Tail(ix), Tail(sizes))
Place(ix, sizes) == Flat(ix, sizes) + 1
Combos(sizes) == {ix \in [1..Len(sizes) -> 0..8] : \A k \in 1..Len(sizes) : ix[k] < sizes[k]}
Regridded(v, t) == [dims |-> v.outer \o t.dims, sizes |-> v.sizes \o t.sizes, slices |-> v.slices]
=============================================================================
