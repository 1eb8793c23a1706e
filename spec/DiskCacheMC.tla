---------------------------- MODULE DiskCacheMC ----------------------------
(* Exhaustive exploration with few keys; prints the graph; checks the eviction rules against
   their declarative form.                                                              *)
EXTENDS DiskCache, Json
CONSTANTS Sizes, Limits, Pcts, Policies, Ops
VARIABLES op
MCInit == DInit /\ op = [op |-> "init"]
Name(n, r) == op' = [op |-> n] @@ r
Forces == IF "force" \in Ops THEN {"none", "true", "false", "fn1", "fn0"} ELSE {"none"}
IsForce(f, k) == f \in {"true", "fn1"}
MCNext ==
  \/ \E k \in Keys, f \in Forces : \E s \in Sizes :
       /\ (Hit(k, IsForce(f, k)) \/ Create(k, IsForce(f, k), s, "") \/ Off)
       /\ Name("req", [k |-> k, f |-> f, size |-> s, how |-> "ok"])
  \/ "fail" \in Ops /\ \E k \in Keys, f \in Forces \cap {"none", "true"} :
       /\ (Fail(k, IsForce(f, k)) \/ (~Managed /\ Off))
       /\ Name("req", [k |-> k, f |-> f, size |-> 1, how |-> "raise"])
  \/ "die" \in Ops /\ \E k \in Keys :
       /\ Fail(k, FALSE) /\ pol = "user"
       /\ Name("req", [k |-> k, f |-> "none", size |-> 1, how |-> "die"])
  \/ "purge" \in Ops /\ Purge(Keys) /\ Name("purge", [m |-> "all"])
  \/ "purge" \in Ops /\ \E S \in (SUBSET Keys) : Purge(S) /\ S # {} /\ S # Keys /\ Name("purge", [m |-> "keys", ks |-> S])
  \/ "lose" \in Ops /\ \E k \in Keys : Lose(k) /\ Name("lose", [k |-> k])
  \/ \E l \in Limits \cup {NoLimit}, q \in Pcts \cup {NoLimit} : <<l, q>> # <<lim, pct>> /\ Limit(l, q) /\ Name("limit", [l |-> l, q |-> q])
  \/ \E p \in Policies : p # pol /\ Policy(p, FALSE) /\ Name("policy", [p |-> p])
  \/ "root" \in Ops /\ Policy(pol, pol = "temporary") /\ Name("root", [x |-> 0])
  \/ \E u \in UserDirs : u # udir /\ Move(u) /\ Name("move", [u |-> u])
  \/ "session" \in Ops /\ Session /\ Name("session", [x |-> 0])
MCSpec == MCInit /\ [][MCNext]_<<dvars, op>>
S == [pol |-> pol, udir |-> udir, lim |-> lim, pct |-> pct, user |-> user, temp |-> temp]
T == [pol |-> pol', udir |-> udir', lim |-> lim', pct |-> pct', user |-> user', temp |-> temp']
View == S
Edge == PrintT("@EDGE " \o ToJson([s |-> S, op |-> op', t |-> T]))
First == op.op = "init" => PrintT("@INIT " \o ToJson(S))

Dirs == {user[u] : u \in UserDirs} \cup {temp}
TypeInv == \A d \in Dirs : /\ Range(d.acc) = Range(d.births) /\ Len(d.acc) = Len(d.births)
                           /\ Cardinality(Range(d.acc)) = Len(d.acc)
                           /\ \A k \in Keys : ~Has(d, k) => d.at[k] = Blank
\* within the limit, unless only the newest entry is left
LimitInv == Managed /\ lim # NoLimit => \/ RealTotal(Dir) <= lim \/ Len(Dir.acc) <= 1 \/ \E k \in Keys : Dir.at[k].lost
PctInv == Managed /\ pct # NoLimit => \/ RealTotal(Dir) <= pct \/ Len(Dir.acc) <= 1
\* declaratively: the victims of trimming are the least recently used, as few as possible
Victims(d, t) == Range(d.acc) \ Range(t.acc)
TrimRight(d, l) ==
  LET t == TrimTo(d, l, NoLimit, Total)
      v == Victims(d, t)
      ev == Evictable(d)
  IN (\A k \in Keys : ~d.at[k].lost) =>
     /\ \E n \in 0..Len(ev) : v = Range(SubSeq(ev, 1, n))
     /\ Total(d) <= l => v = {}
     /\ v # {} => \E k \in v : Total(t) + d.at[k].size > l
     /\ Total(t) <= l \/ Range(t.acc) \cap Range(ev) = {}
TrimInv == \A d \in Dirs : \A l \in 0..Total(d) : TrimRight(d, l)
\* only requests, purges, limits, policies and lost files remove anything
HitKeeps == [][op'.op = "req" /\ op'.how = "ok" /\ pol' = "user" /\ pol = "user" /\ Present(user[udir], op'.k) /\ op'.f \notin {"true", "fn1"}
                 => Range(user'[udir].acc) = Range(user[udir].acc)]_<<dvars, op>>
OthersKeep == [][\A u \in UserDirs : u # udir' => user'[u] = user[u]]_<<dvars, op>>
=============================================================================
