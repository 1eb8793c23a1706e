------------------------------ MODULE RegridMC ------------------------------
(* Generates histories of lookups: the memory cache keeps a set of previously used weights
   by lookup key.  The key must identify the inventory, both grids and the method, or a
   retained matrix would be served for another lookup (checked as KeyInv); every history
   reaching a new set of retained keys is followed by every possible lookup.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NInv, NIn, NOut, Methods, MaxKept, Policies

VARIABLES pol, mem, op
vars == <<pol, mem, op>>
Keys == [inv : 1..NInv, i : 1..NIn, o : 1..NOut, m : Methods]
State == [p |-> pol, k |-> mem]
Init == pol = "unlimited" /\ mem = {} /\ op = [op |-> "init"] /\ PrintT("@INIT " \o ToJson(State))

Weights(k) == <<k.inv, k.i, k.o, k.m>>     \* what the inventory holds for k
Regrid(k) == /\ op' = [op |-> "regrid", k |-> k]
             /\ mem' = IF pol = "off" THEN {} ELSE mem \cup {<<k, Weights(k)>>}
             /\ UNCHANGED pol
Clear == mem' = {} /\ op' = [op |-> "clear"] /\ UNCHANGED pol
Conf(p) == p # pol /\ pol' = p /\ op' = [op |-> "conf", p |-> p] /\ mem' = (IF p = "off" THEN {} ELSE mem)
Next == (\E k \in Keys : Regrid(k)) \/ Clear \/ \E p \in Policies : Conf(p)
Spec == Init /\ [][Next]_vars
View == <<pol, mem>>
Bound == Cardinality(mem) <= MaxKept
KeyInv == \A e \in mem : e[2] = Weights(e[1])
Edge == PrintT("@EDGE " \o ToJson([s |-> State, op |-> op', t |-> State']))
=============================================================================
