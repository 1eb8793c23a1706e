------------------------------ MODULE MemCache ------------------------------
(* The in-memory cache of interpolation weights (earthkit.regrid.utils.memcache).

   One action per public operation: a lookup of weights (which is a hit, a load, a refusal
   or a failure), the lookup of weights that do not exist, clearing, and a configuration
   change.  Keys stand for weights; Size[k] is their memory size, Est[k] the size recorded in
   the inventory (0: none recorded).

   `Enforce` selects what is left open, so that one property can be decided without the
   others: without "victims" any subset of the retained weights may be evicted at any
   loading or configuration change (subject to the limit), without "strict" a lookup may be
   refused or not, without "reuse" retained weights may be read again.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANTS Keys, Size, Est, Limits, Enforce

VARIABLES pol,     \* cache policy in force
          lim,     \* maximum size in force (under the policies that have a limit)
          strict,  \* strict mode
          items,   \* weights retained, least recently used first
          hits, misses

vars == <<pol, lim, strict, items, hits, misses>>

Policies == {"off", "unlimited", "lru", "largest"}
Limited(p) == p \in {"lru", "largest"}
Kept(q) == ToSet(q)
Total(q) == FoldSeq(LAMBDA k, acc : acc + Size[k], 0, q)
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)
Only(q, S) == SelectSeq(q, LAMBDA x : x \in S)
LargestOf(q) == {k \in Kept(q) : \A j \in Kept(q) : Size[k] >= Size[j]}

\* what can be retained of q after evicting until the total is at most `target`
RECURSIVE Reduced(_, _, _)
Reduced(p, q, target) ==
  IF Total(q) <= target \/ q = <<>> THEN {q}
  ELSE IF p = "lru" THEN Reduced(p, Tail(q), target)
  ELSE UNION {Reduced(p, Without(q, k), target) : k \in LargestOf(q)}

AnyReduced(q, target) == {r \in {Only(q, S) : S \in SUBSET Kept(q)} : Total(r) <= target}

Evict(p, q, target) == IF "victims" \in Enforce THEN Reduced(p, q, target) ELSE AnyReduced(q, target)
Unevicted(q) == IF "victims" \in Enforce THEN {q} ELSE {Only(q, S) : S \in SUBSET Kept(q)}

Init == /\ pol = "largest" /\ strict = FALSE
        /\ lim = CHOOSE l \in Limits : \A m \in Limits : m <= l
        /\ items = <<>> /\ hits = 0 /\ misses = 0

UnchangedConf == UNCHANGED <<pol, lim, strict>>

Hit(k) ==
  /\ pol # "off" /\ k \in Kept(items)
  /\ items' = Append(Without(items, k), k)
  /\ hits' = hits + 1
  /\ UNCHANGED misses /\ UnchangedConf

TooLarge(k) == Limited(pol) /\ strict /\ Est[k] > lim

\* room made before the weights are read, from their recorded size
Room(q, k) == IF Limited(pol) /\ Est[k] <= lim /\ Est[k] > lim - Total(q)
              THEN Evict(pol, q, lim - Est[k])
              ELSE Unevicted(q)

Loaded(q, k) == IF Limited(pol)
                THEN IF Size[k] > lim THEN Unevicted(q) ELSE Evict(pol, Append(q, k), lim)
                ELSE Unevicted(Append(q, k))

Load(k) ==
  /\ pol # "off"
  /\ k \notin Kept(items) \/ "reuse" \notin Enforce
  /\ "strict" \in Enforce => ~TooLarge(k)
  /\ \E q1 \in Room(Without(items, k), k) : items' \in Loaded(q1, k)
  /\ misses' = misses + 1
  /\ UNCHANGED hits /\ UnchangedConf

LoadOff(k) == pol = "off" /\ UNCHANGED vars

Refuse(k) ==
  /\ pol # "off"
  /\ "strict" \in Enforce => TooLarge(k) /\ k \notin Kept(items)
  /\ IF "strict" \in Enforce
     THEN UNCHANGED vars
     ELSE /\ items' \in {Only(items, S) : S \in SUBSET Kept(items)}
          /\ UNCHANGED <<hits, misses>> /\ UnchangedConf

\* the weights could not be read (the room made for them may already be free)
Fail(k) ==
  /\ \/ pol = "off" /\ UNCHANGED items
     \/ pol # "off" /\ k \notin Kept(items)
        /\ (items' \in Room(items, k) \/ UNCHANGED items)
  /\ UNCHANGED <<hits, misses>> /\ UnchangedConf

\* there are no such weights
NotFound ==
  /\ misses' \in (IF pol = "off" THEN {misses} ELSE {misses, misses + 1})
  /\ UNCHANGED <<items, hits>> /\ UnchangedConf

Clear == /\ items' = <<>> /\ hits' = 0 /\ misses' = 0 /\ UnchangedConf

Configure(p, l, s) ==
  /\ pol' = p /\ lim' = l /\ strict' = s
  /\ items' \in (IF p = "off" THEN {<<>>}
                 ELSE IF Limited(p) THEN Evict(p, items, l)
                 ELSE Unevicted(items))
  /\ IF p = "off"
     THEN \/ hits' = 0 /\ misses' = 0
          \/ UNCHANGED <<hits, misses>>
     ELSE UNCHANGED <<hits, misses>>

-----------------------------------------------------------------------------
\* The properties, stated independently of how the actions above are defined.

LimitInv == Limited(pol) => Total(items) <= lim
OffInv == pol = "off" => items = <<>>
NoDupInv == IsInjective(items)

Evicted == Kept(items) \ Kept(items')
Added == Kept(items') \ Kept(items)
SameConf == UNCHANGED <<pol, lim, strict>>
Cleared == items' = <<>> /\ hits' = 0 /\ misses' = 0 /\ SameConf

\* lru: only the least recently used are evicted
LruVictims == (pol' = "lru" /\ ~Cleared /\ Evicted # {}) =>
   \A v \in Evicted : \A r \in Kept(items) \cap Kept(items') :
       (CHOOSE i \in 1..Len(items) : items[i] = v) < (CHOOSE i \in 1..Len(items) : items[i] = r)

\* largest: only the largest are evicted
LargestVictims == (pol' = "largest" /\ ~Cleared /\ Evicted # {}) =>
   \A v \in Evicted : \A r \in Kept(items) \cap Kept(items') : Size[v] >= Size[r]

\* nothing is evicted while there is room: not one victim could have stayed together with
\* what is retained and what was asked for
RoomNeeded(need) == (Limited(pol') /\ ~Cleared /\ Evicted # {}) =>
   \E v \in Evicted : Total(items') + Size[v] + need > lim'

UnlimitedKeepsAll == (pol' = "unlimited" /\ ~Cleared) => Evicted = {}
=============================================================================
