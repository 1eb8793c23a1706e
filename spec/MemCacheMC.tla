----------------------------- MODULE MemCacheMC -----------------------------
(* Exhaustive checking of MemCache and enumeration of its transitions. *)
EXTENDS MemCache, TLC, Json, MemCacheInst

VARIABLE op
mcvars == <<vars, op>>
View == <<pol, lim, strict, items>>
State == [p |-> pol, l |-> lim, s |-> strict, q |-> items]

MCInit == Init /\ op = [op |-> "init"] /\ PrintT("@INIT " \o ToJson(State))

Confs == {<<p, lim, strict>> : p \in Policies} \cup {<<pol, l, strict>> : l \in Limits}
         \cup {<<pol, lim, s>> : s \in BOOLEAN}

Lookup(k) == Hit(k) \/ Load(k) \/ LoadOff(k) \/ Refuse(k)

MCNext == \/ \E k \in Keys : Lookup(k) /\ op' = [op |-> "look", k |-> k]
          \/ \E k \in FailKeys : Fail(k) /\ op' = [op |-> "fail", k |-> k]
          \/ NotFound /\ misses' = misses /\ op' = [op |-> "none", k |-> 1]
          \/ Clear /\ op' = [op |-> "clear"]
          \/ \E c \in Confs : Configure(c[1], c[2], c[3]) /\ op' = [op |-> "conf", p |-> c[1], l |-> c[2], s |-> c[3]]

MCSpec == MCInit /\ [][MCNext]_mcvars

Edge == PrintT("@EDGE " \o ToJson([s |-> State, op |-> op', t |-> State']))

\* action properties
PLru == [][LruVictims]_mcvars
PLargest == [][LargestVictims]_mcvars
PUnlimited == [][UnlimitedKeepsAll]_mcvars
PRoom == [][IF op'.op \in {"look", "fail"}
            THEN op'.k \in Right => RoomNeeded(Est[op'.k])
            ELSE RoomNeeded(0)]_mcvars
PStrict == [][(op'.op = "look" /\ strict /\ Limited(pol) /\ Est[op'.k] > lim /\ op'.k \notin Kept(items))
              => UNCHANGED vars]_mcvars
PLooseServed == [][(op'.op = "look" /\ ~(strict /\ Limited(pol)) /\ pol # "off") => (hits' + misses' = hits + misses + 1)]_mcvars
\* a lookup of weights that fit leaves them retained
PKept == [][(op'.op = "look" /\ pol # "off" /\ (Limited(pol) => Size[op'.k] <= lim) /\ op'.k \in Right
             /\ ~(strict /\ Est[op'.k] > lim)) => op'.k \in Kept(items')]_mcvars
=============================================================================
