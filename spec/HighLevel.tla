----------------------------- MODULE HighLevel -----------------------------
(* regrid() of the types it knows: what a call gives, from what it was given and nothing else.
   A call is [kind, items, backend, target, options, bad]:
     kind     "list", "field", "bytes", "stream", or something not supported
     items    the fields, each [v |-> values, m |-> metadata, g |-> grid, ok |-> is a field that can be regridded]
     backend  [name, weights]: the engine, precomputed weights of an inventory, or something else
     target   [name, ll |-> is a regular lat-lon grid]; name "none" when missing
   A result is a sequence of [v, m, w, g]: from which values, with which metadata, by which weights, on which grid. *)
EXTENDS Naturals, Sequences, FiniteSets
Kinds == {"list", "field", "bytes", "stream"}
Messages == {"bytes", "stream"}
Engine == "mir"
Precomputed == "precomputed"
Refused == "ValueError"
\* the weights used for an item: 0 for the engine, else those of the inventory, -1 if there are none
Weights(c, it) == IF c.backend.name = Engine THEN 0
                  ELSE IF \E w \in c.weights : w.i = it.g /\ w.o = c.target.name /\ w.m = c.method
                       THEN (CHOOSE w \in c.weights : w.i = it.g /\ w.o = c.target.name /\ w.m = c.method).code ELSE 0 - 1
\* calls that are refused before any field is looked at
Unsupported(c) == \/ c.kind \notin Kinds
                  \/ c.backend.name \notin {Engine, Precomputed}
                  \/ c.target.name = "none"
                  \/ c.backend.name = Precomputed /\ (c.kind \in Messages \/ ~c.target.ll)
Bad(c, it) == ~it.ok \/ Weights(c, it) = 0 - 1
\* the outcomes a call may have
Outcome(c) ==
  IF Unsupported(c) THEN [err |-> Refused, out |-> <<>>]
  ELSE IF \E k \in 1..Len(c.items) : Bad(c, c.items[k]) THEN [err |-> Refused, out |-> <<>>]
  ELSE [err |-> "", out |-> [k \in 1..Len(c.items) |-> [v |-> c.items[k].v, m |-> c.items[k].m, w |-> Weights(c, c.items[k]), g |-> c.target.name]]]
\* a field alone
Alone(c, k) == Outcome([c EXCEPT !.kind = "list", !.items = <<c.items[k]>>])
=============================================================================
