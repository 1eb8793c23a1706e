------------------------------ MODULE BuilderMC ------------------------------
(* Two inventories built in every order, subsets and merges of them.  Grids 1 and 2. *)
EXTENDS Builder, Json
CONSTANTS Max, Ss, MaxAdds
VARIABLES invs, n, last
vars == <<invs, n, last>>

Looks == {<<i, o, m>> : i \in {1, 2}, o \in {1, 2}, m \in {"linear", "nearest-neighbour", "grid-box-average"}}
Key == [i : {1, 2}, o : {1}, s : Ss]
MCInit == invs = <<<<>>, <<>>>> /\ n = 0 /\ last = [op |-> "init"]
Add(k, x) == /\ n < MaxAdds
             /\ LET e == Entry(x.i, x.o, x.s, n + 1)
                    t == Added(invs[k], e)
                IN Len(t) <= Max /\ invs' = [invs EXCEPT ![k] = t]
             /\ n' = n + 1
             /\ last' = [op |-> "add", k |-> k, i |-> x.i, o |-> x.o, s |-> x.s]
MCNext == \E k \in {1, 2}, x \in Key : Add(k, x)
MCSpec == MCInit /\ [][MCNext]_vars

\* additions leave the rest alone, and never take over what was found
KeepProp == [][\A k \in {1, 2} :
   /\ Keys(invs[k]) \subseteq Keys(invs'[k])
   /\ \A x \in Range(invs[k]) : x \notin Range(invs'[k]) => last'.op = "add" /\ SameKey(x, last')
   /\ \A q \in Looks : \A f \in Found(invs[k], q[1], q[2], q[3]) :
         \E g \in Found(invs'[k], q[1], q[2], q[3]) : SameKey(f, g) ]_vars
FindInv == \A k \in {1, 2} : \A x \in Range(invs[k]) : Found(invs[k], x.i, x.o, Method(x.s)) # {}
KeyInv == \A k \in {1, 2} : Cardinality(Keys(invs[k])) = Len(invs[k])
\* the filters that ask for everything findable
All(inv) == [k \in DOMAIN inv |-> [i |-> inv[k].i, o |-> inv[k].o, m |-> Method(inv[k].s)]]
SubsetInv == \A k \in {1, 2} : LET b == Subset(invs[k], All(invs[k])) IN
   /\ Range(b) \subseteq Range(invs[k])
   /\ \A q \in Looks : Found(b, q[1], q[2], q[3]) = Found(invs[k], q[1], q[2], q[3])
   /\ Subset(b, All(b)) = b
MergeInv == Disjoint(invs[1], invs[2]) =>
   /\ Range(Merged(invs[1], invs[2])) = Range(invs[1]) \cup Range(invs[2])
   /\ \A q \in Looks : \A f \in Found(invs[1], q[1], q[2], q[3]) : Found(Merged(invs[1], invs[2]), q[1], q[2], q[3]) = {f}
PrintEdge == PrintT("@EDGE " \o ToJson([s |-> [invs |-> invs, n |-> n], op |-> last', t |-> [invs |-> invs', n |-> n']]))
Init2 == PrintT("@INIT " \o ToJson([invs |-> invs, n |-> n]))
PrintInit == n > 0 \/ Init2
View == <<invs, n>>
=============================================================================
