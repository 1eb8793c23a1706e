------------------------------ MODULE CacheFile ------------------------------
(* The protocol by which a cache file is created: a lock file next to it, content made in a
   temporary file, and one rename.  Callers may die at any step.  UnlinkHeld: the lock file is
   removed while it is still held (if not, after its release).  Atomic: content is made in the
   temporary file (if not, at the path itself).  Recheck: the path is looked at again once the
   lock is held.
   Lock files are told apart by numbers: `lock` the one at the path (0 none), `held` those locked.
   As filelock does, a caller that gets a lock whose file is no longer at the path tries again. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Callers, Forced, Calls, Deaths, Purges, UnlinkHeld, Atomic, Recheck
VARIABLES pc, ino, lock, held, next, path, tmp, made, calls, deaths, purges, got, since
vars == <<pc, ino, lock, held, next, path, tmp, made, calls, deaths, purges, got, since>>
\* content: 0 nothing, [id, parts]: complete with 2 parts; tmp may have parts of several creations
None == <<>>
Complete(x) == Len(x) = 2 /\ x[1] = x[2]
Init == /\ pc = [c \in Callers |-> "idle"] /\ ino = [c \in Callers |-> 0] /\ lock = 0 /\ held = [n \in {} |-> 0] /\ next = 1
        /\ path = None /\ tmp = None /\ made = 0 /\ calls = [c \in Callers |-> 0] /\ deaths = 0 /\ purges = 0
        /\ got = [c \in Callers |-> None] /\ since = [c \in Callers |-> 0]
Is(c, p) == pc[c] = p
To(c, p) == pc' = [pc EXCEPT ![c] = p]
Held(n) == \E c \in Callers : n \in DOMAIN held /\ held[n] = c
Target == IF Atomic THEN tmp ELSE path
Keep(s) == UNCHANGED s

Begin(c) == /\ Is(c, "idle") /\ calls[c] < Calls /\ calls' = [calls EXCEPT ![c] = @ + 1]
            /\ since' = [since EXCEPT ![c] = made]
            /\ To(c, IF path # None /\ c \notin Forced THEN "read" ELSE "open")
            /\ Keep(<<ino, lock, held, next, path, tmp, made, deaths, purges, got>>)
Open(c) == /\ Is(c, "open")
           /\ IF lock # 0 THEN ino' = [ino EXCEPT ![c] = lock] /\ Keep(<<lock, next>>)
              ELSE lock' = next /\ next' = next + 1 /\ ino' = [ino EXCEPT ![c] = next]
           /\ To(c, "flock") /\ Keep(<<held, path, tmp, made, calls, deaths, purges, got, since>>)
Flock(c) == /\ Is(c, "flock")
            /\ IF Held(ino[c]) THEN To(c, "open") /\ Keep(held)
               ELSE held' = (ino[c] :> c) @@ held /\ To(c, "verify")
            /\ Keep(<<ino, lock, next, path, tmp, made, calls, deaths, purges, got, since>>)
Verify(c) == /\ Is(c, "verify")
             /\ IF lock = ino[c] THEN To(c, "check") /\ Keep(held)
                ELSE held' = [held EXCEPT ![ino[c]] = 0] /\ To(c, "open")
             /\ Keep(<<ino, lock, next, path, tmp, made, calls, deaths, purges, got, since>>)
Check(c) == /\ Is(c, "check")
            /\ To(c, IF c \in Forced \/ ~Recheck \/ path = None THEN "create" ELSE "unlink")
            /\ Keep(<<ino, lock, held, next, path, tmp, made, calls, deaths, purges, got, since>>)
\* content is made in two parts
Put(x) == IF Atomic THEN tmp' = x /\ Keep(path) ELSE path' = x /\ Keep(tmp)
Create(c) == /\ Is(c, "create") /\ made' = made + 1 /\ Put(<<made + 1>>) /\ To(c, "finish")
             /\ ino' = [ino EXCEPT ![c] = ino[c]] /\ got' = [got EXCEPT ![c] = <<made + 1>>]
             /\ Keep(<<lock, held, next, calls, deaths, purges, since>>)
Finish(c) == /\ Is(c, "finish") /\ Put(Append(Target, got[c][1])) /\ To(c, "rename")
             /\ Keep(<<ino, lock, held, next, made, calls, deaths, purges, got, since>>)
Rename(c) == /\ Is(c, "rename")
             /\ IF Atomic THEN path' = tmp /\ tmp' = None ELSE Keep(<<path, tmp>>)
             /\ To(c, "unlink") /\ Keep(<<ino, lock, held, next, made, calls, deaths, purges, got, since>>)
Unlink(c) == /\ Is(c, "unlink")
             /\ IF UnlinkHeld THEN lock' = 0 /\ Keep(held) ELSE held' = [held EXCEPT ![ino[c]] = 0] /\ Keep(lock)
             /\ To(c, "release") /\ Keep(<<ino, next, path, tmp, made, calls, deaths, purges, got, since>>)
Release(c) == /\ Is(c, "release")
              /\ IF UnlinkHeld THEN held' = [held EXCEPT ![ino[c]] = 0] /\ Keep(lock) ELSE lock' = 0 /\ Keep(held)
              /\ To(c, "read") /\ Keep(<<ino, next, path, tmp, made, calls, deaths, purges, got, since>>)
Read(c) == /\ Is(c, "read") /\ got' = [got EXCEPT ![c] = path] /\ To(c, "idle")
           /\ Keep(<<ino, lock, held, next, path, tmp, made, calls, deaths, purges, since>>)
\* the locks of the dead are free; the files stay
Die(c) == /\ ~Is(c, "dead") /\ deaths < Deaths /\ deaths' = deaths + 1 /\ To(c, "dead")
          /\ held' = [n \in DOMAIN held |-> IF held[n] = c THEN 0 ELSE held[n]]
          /\ Keep(<<ino, lock, next, path, tmp, made, calls, purges, got, since>>)
Purge == /\ purges < Purges /\ path # None /\ purges' = purges + 1 /\ path' = None
         /\ Keep(<<pc, ino, lock, held, next, tmp, made, calls, deaths, got, since>>)
Next == Purge \/ \E c \in Callers : Begin(c) \/ Open(c) \/ Flock(c) \/ Verify(c) \/ Check(c) \/ Create(c) \/ Finish(c) \/ Rename(c)
                                    \/ Unlink(c) \/ Release(c) \/ Read(c) \/ Die(c)
Fair == \A c \in Callers : /\ WF_vars(Begin(c) \/ Open(c) \/ Verify(c) \/ Check(c) \/ Create(c) \/ Finish(c) \/ Rename(c) \/ Unlink(c) \/ Release(c) \/ Read(c))
                           /\ SF_vars(Flock(c) /\ ~Held(ino[c]))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair
Creating(c) == pc[c] \in {"create", "finish", "rename"}
OneCreator == Cardinality({c \in Callers : Creating(c)}) <= 1
OnlyComplete == path = None \/ Complete(path)
\* what a caller has read: complete content, unless the cache was purged; a forced one gets what
\* was made since it asked
Answer == \A c \in Callers : Is(c, "idle") /\ calls[c] > 0 =>
             /\ got[c] = None => purges > 0
             /\ got[c] # None => Complete(got[c])
             /\ c \in Forced /\ got[c] # None => got[c][1] > since[c]
\* a refresh only when asked for: without forced callers and purges the content is made once
Once == Forced = {} /\ purges = 0 /\ deaths = 0 => made <= 1
Served == \A c \in Callers : <>[](pc[c] = "dead" \/ (pc[c] = "idle" /\ calls[c] = Calls))
=============================================================================
