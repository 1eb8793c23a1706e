---------------------------- MODULE HighLevelMC ----------------------------
(* The machine behind regrid(): a backend is made at its first use and kept under its name and inventory; the fields
   are taken one by one, and a bad one ends the call.  It is checked to give HighLevel!Outcome whatever was called
   before, and a list to give what its fields give alone.  The calls, by the backends made before, are replayed. *)
EXTENDS HighLevel, TLC, Json
CONSTANTS MaxItems
A == [v |-> 1, m |-> 1, g |-> "O32", ok |-> TRUE]
B == [v |-> 2, m |-> 2, g |-> "LL30", ok |-> TRUE]
X == [v |-> 0, m |-> 3, g |-> "odd", ok |-> FALSE]
Inv == [a |-> {[i |-> "O32", o |-> "LL60", m |-> "linear", code |-> 1], [i |-> "LL30", o |-> "LL60", m |-> "linear", code |-> 2], [i |-> "O32", o |-> "LL60", m |-> "nearest-neighbour", code |-> 3]},
        b |-> {[i |-> "O32", o |-> "LL60", m |-> "linear", code |-> 4], [i |-> "LL30", o |-> "LL90", m |-> "linear", code |-> 5]}]
Backends == {[name |-> Engine, inv |-> "none"], [name |-> Precomputed, inv |-> "a"], [name |-> Precomputed, inv |-> "b"], [name |-> "unknown", inv |-> "none"], [name |-> "missing", inv |-> "none"]}
Targets == {[name |-> "LL60", ll |-> TRUE], [name |-> "LL90", ll |-> TRUE], [name |-> "H2", ll |-> FALSE], [name |-> "none", ll |-> FALSE]}
Seqs(n) == UNION {[1..k -> {A, B, X}] : k \in 0..n}
Inputs == {[kind |-> "list", items |-> s] : s \in Seqs(MaxItems)} \cup {[kind |-> "field", items |-> <<x>>] : x \in {A, B, X}}
          \cup {[kind |-> k, items |-> <<x>>] : k \in Messages, x \in {A, B}} \cup {[kind |-> "other", items |-> <<>>]}
Calls == {[kind |-> i.kind, items |-> i.items, backend |-> b, target |-> t, method |-> m, weights |-> IF b.inv \in DOMAIN Inv THEN Inv[b.inv] ELSE {}] :
             i \in Inputs, b \in Backends, t \in Targets, m \in {"linear", "nearest-neighbour"}}
VARIABLES made, pc, call, out, err, k
vars == <<made, pc, call, out, err, k>>
Init == made = {} /\ pc = "idle" /\ call = <<>> /\ out = <<>> /\ err = "" /\ k = 0
\* the order of the refusals is not promised; the machine checks type, backend, target
Begin(c) == /\ pc = "idle" /\ call' = c /\ out' = <<>> /\ k' = 1
            /\ IF c.kind \notin Kinds \/ c.backend.name \notin {Engine, Precomputed}
               THEN err' = Refused /\ pc' = "done" /\ UNCHANGED made
               ELSE /\ made' = made \cup {c.backend}
                    /\ IF Unsupported(c) THEN err' = Refused /\ pc' = "done" ELSE err' = "" /\ pc' = "fields"
Field == /\ pc = "fields" /\ k <= Len(call.items) /\ UNCHANGED <<made, call>>
         /\ LET it == call.items[k] IN
              IF Bad(call, it) THEN err' = Refused /\ out' = <<>> /\ pc' = "done" /\ UNCHANGED k
              ELSE out' = Append(out, [v |-> it.v, m |-> it.m, w |-> Weights(call, it), g |-> call.target.name]) /\ k' = k + 1 /\ UNCHANGED <<pc, err>>
End == pc = "fields" /\ k > Len(call.items) /\ pc' = "done" /\ UNCHANGED <<made, call, out, err, k>>
Return == pc = "done" /\ pc' = "idle" /\ call' = <<>> /\ out' = <<>> /\ err' = "" /\ k' = 0 /\ UNCHANGED made
Next == (\E c \in Calls : Begin(c)) \/ Field \/ End \/ Return
Spec == Init /\ [][Next]_vars
Gives == pc = "done" => [err |-> err, out |-> out] = Outcome(call)
AsAlone == (pc = "done" /\ err = "") => \A n \in 1..Len(out) : Alone(call, n).out = <<out[n]>>
Edge == IF pc = "idle" THEN PrintT("@CALL " \o ToJson([s |-> {b.name \o b.inv : b \in made}, kind |-> call'.kind, items |-> [n \in 1..Len(call'.items) |-> call'.items[n].g],
           backend |-> call'.backend.name, inv |-> call'.backend.inv, target |-> call'.target.name, method |-> call'.method, ok |-> Outcome(call').err = ""])) ELSE TRUE
=============================================================================
