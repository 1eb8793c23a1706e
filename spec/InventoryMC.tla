---------------------------- MODULE InventoryMC ----------------------------
(* Enumerates all small indexes. *)
EXTENDS Inventory, TLC, Json
CONSTANTS MaxLen
VARIABLES inv

E(c, i, o, m) == [c |-> c, i |-> i, o |-> o, m |-> m]
Kinds == { E("ok", 1, 1, "linear"), E("ok", 1, 2, "nearest-neighbour"), E("ok", 2, 1, "nearest-neighbour"),
           E("ok", 2, 1, "linear"), E("methoddict", 1, 1, "grid-box-average"),
           E("intype", 1, 1, "linear"), E("outtype", 1, 1, "linear"), E("noinput", 1, 1, "linear"), E("nooutput", 1, 2, "nearest-neighbour"),
           E("nogrid", 2, 1, "linear"), E("nomethod", 1, 1, "linear"), E("methodlist", 2, 1, "linear"), E("nointer", 1, 1, "linear"),
           E("text", 1, 1, "linear"), E("null", 1, 1, "linear"), E("ok", 1, 1, "later") }
Good == {k \in Kinds : Usable(k)}

Init == \E v \in {1} : inv = [version |-> v, entries |-> <<>>]
Add(k) == /\ Len(inv.entries) < MaxLen
          /\ inv' = [inv EXCEPT !.entries = Append(@, k)]
          /\ ~\E j \in DOMAIN inv.entries : Usable(k) /\ inv.entries[j] = k
Bad(v) == inv.version = 1 /\ inv' = [inv EXCEPT !.version = v]
Next == (inv.version = 1 /\ \E k \in Kinds : Add(k)) \/ \E v \in {0, 2, 3} : Bad(v)
Spec == Init /\ [][Next]_inv
PrintInv == PrintT("@INV " \o ToJson(inv))

\* unusable entries never matter, wherever they are
SkipInv == \A i \in 1..2, o \in 1..2, m \in {"linear", "nearest-neighbour", "nn", "grid-box-average"} :
   Matches(inv, i, o, m) = Matches([inv EXCEPT !.entries = SelectSeq(@, Usable)], i, o, m)
\* at most one answer (entries are not repeated)
OneInv == \A i \in 1..2, o \in 1..2, m \in {"linear", "nearest-neighbour", "nn", "grid-box-average"} :
   Cardinality(Matches(inv, i, o, m)) <= 1
=============================================================================
