------------------------------ MODULE DiskCache ------------------------------
(* The disk cache as one user at a time sees it: requests of cache entries, which may fail
   or force a re-creation, purges, files deleted behind the cache's back, limits, policies
   and directories, and sessions.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,       \* what identifies entries: owner, arguments, extension
          UserDirs    \* directories for the policy "user"
NoLimit == -1

VARIABLES pol,        \* "user", "temporary", "off"
          udir,       \* user-cache-directory
          lim, pct,   \* limits of the size, and of the disk usage (in the same unit: the fake disk has 100 units)
          user,       \* contents of the user cache directories
          temp        \* contents of the current temporary cache directory
dvars == <<pol, udir, lim, pct, user, temp>>

\* the contents of a directory: keys by last access and by creation (oldest first), attributes
Blank == [size |-> 0, od |-> "", lost |-> FALSE, limbo |-> FALSE]
Empty == [acc |-> <<>>, births |-> <<>>, at |-> [k \in Keys |-> Blank]]
Range(s) == {s[i] : i \in DOMAIN s}
Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
Has(d, k) == k \in Range(d.acc)
Present(d, k) == Has(d, k) /\ ~d.at[k].lost
Drop(d, k) == [acc |-> Without(d.acc, k), births |-> Without(d.births, k), at |-> [d.at EXCEPT ![k] = Blank]]
RECURSIVE DropAll(_, _)
DropAll(d, S) == IF S = {} THEN d ELSE LET k == CHOOSE x \in S : TRUE IN DropAll(Drop(d, k), S \ {k})
Touch(d, k) == [d EXCEPT !.acc = Append(Without(@, k), k)]
Put(d, k, size, od) == LET e == Drop(d, k) IN
   [acc |-> Append(e.acc, k), births |-> Append(e.births, k), at |-> [e.at EXCEPT ![k] = [size |-> size, od |-> od, lost |-> FALSE, limbo |-> FALSE]]]
RECURSIVE Sum(_, _)
Sum(d, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN d.at[k].size + Sum(d, S \ {k})
Real(d) == {k \in Range(d.acc) : ~d.at[k].lost}
Total(d) == Sum(d, Range(d.acc))
RealTotal(d) == Sum(d, Real(d))

\* removes entries in order of access until enough is freed; the newest entry stays
RECURSIVE Free(_, _, _)
Free(d, order, need) ==
  IF need <= 0 \/ order = <<>> THEN d
  ELSE LET k == Head(order) IN
       Free(Drop(d, k), Tail(order), need - (IF d.at[k].lost THEN 0 ELSE d.at[k].size))
Evictable(d) == IF d.births = <<>> THEN <<>> ELSE Without(d.acc, d.births[Len(d.births)])
FreeBytes(d, need) == Free(d, Evictable(d), need)
\* with the sizes as recorded (lost files included until they are found out), or as they are
TrimTo(d, l, p, T(_)) ==
  LET a == IF l # NoLimit /\ T(d) > l THEN FreeBytes(d, T(d) - l) ELSE d
  IN IF p # NoLimit /\ RealTotal(a) > p THEN FreeBytes(a, RealTotal(a) - p) ELSE a
Trims(d, l, p) == {TrimTo(d, l, p, Total), TrimTo(d, l, p, RealTotal)}

Managed == pol # "off"
Dir == IF pol = "user" THEN user[udir] ELSE temp
SetDir(d) == IF pol = "user" THEN user' = [user EXCEPT ![udir] = d] /\ temp' = temp
             ELSE temp' = d /\ user' = user
Same == UNCHANGED <<pol, udir, lim, pct>>

DInit == /\ pol = "user" /\ udir \in UserDirs /\ lim = NoLimit /\ pct = NoLimit
         /\ user = [u \in UserDirs |-> Empty] /\ temp = Empty

\* a request: the entry is there and is not to be re-created
Hit(k, force) == /\ Managed /\ Present(Dir, k) /\ ~force /\ SetDir(Touch(Dir, k)) /\ Same
\* it is created
Creates(k, force) == ~Present(Dir, k) \/ force
Create(k, force, size, od) == /\ Managed /\ Creates(k, force)
                              /\ \E t \in Trims(Put(Dir, k, size, od), lim, pct) : SetDir(t)
                              /\ Same
\* it cannot be created: a previous entry stays
Failed(d, k) == IF Present(d, k) THEN Touch(d, k) ELSE Drop(d, k)
Fail(k, force) == Managed /\ Creates(k, force) /\ SetDir(Failed(Dir, k)) /\ Same
\* nothing is kept when the cache is off
Off == ~Managed /\ UNCHANGED dvars

Purge(S) == /\ Managed /\ SetDir(DropAll(Dir, S \cap Range(Dir.acc))) /\ Same
\* someone deletes the file of an entry
Lose(k) == Managed /\ Present(Dir, k) /\ SetDir([Dir EXCEPT !.at[k].lost = TRUE]) /\ Same
\* limits, policy and directories: in effect at once
Apply(p, u, l, q, t) ==
  /\ pol' = p /\ udir' = u /\ lim' = l /\ pct' = q
  /\ IF p = "user" THEN /\ \E x \in Trims(user[u], l, q) : user' = [user EXCEPT ![u] = x]
                        /\ temp' = Empty
     ELSE IF p = "temporary" THEN \E x \in Trims(t, l, q) : temp' = x /\ user' = user
     ELSE temp' = Empty /\ user' = user
Limit(l, q) == Apply(pol, udir, l, q, temp)
Policy(p, newroot) == Apply(p, udir, lim, pct, IF p = pol /\ ~newroot THEN temp ELSE Empty)
Move(u) == Apply(pol, u, lim, pct, temp)
\* a new session: temporary files are gone
Session == Apply(pol, udir, lim, pct, Empty)
=============================================================================
