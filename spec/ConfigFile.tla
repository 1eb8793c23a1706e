------------------------------ MODULE ConfigFile -----------------------------
(* How processes share the configuration file: a save holds a lock file, writes a temporary
   file and renames it; a new session creates the file with the defaults when there is none,
   and reads it.  Processes may die at any step.  The constants switch off one part each:
   Lock: saves are done under the lock.  Atomic: the temporary file (if not, the file itself
   is written).  UnlinkHeld: the lock file is removed while it is held (if not, afterwards).
   Recheck: a new session looks again for the file when it has the lock.
   Contents are numbered: 1 the defaults, the others one for each save.                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Procs, Saves, Deaths, Lock, Atomic, UnlinkHeld, Recheck
VARIABLES pc, ino, lock, held, next, path, tmp, made, left, deaths, mem, goal, last, open
vars == <<pc, ino, lock, held, next, path, tmp, made, left, deaths, mem, goal, last, open>>
\* a content is a sequence of two parts of the same number; <<>> an empty file; <<0>> no file
Gone == <<0>>
Whole(x) == Len(x) = 2 /\ x[1] = x[2]
K(s) == UNCHANGED s
Is(c, p) == pc[c] = p
To(c, p) == pc' = [pc EXCEPT ![c] = p]
Init == /\ pc = [c \in Procs |-> "begin"] /\ ino = [c \in Procs |-> 0] /\ lock = 0 /\ held = [n \in {} |-> 0] /\ next = 1
        /\ path = Gone /\ tmp = Gone /\ made = 1 /\ left = [c \in Procs |-> Saves] /\ deaths = 0
        /\ mem = [c \in Procs |-> 0] /\ goal = [c \in Procs |-> 0] /\ last = 0 /\ open = [c \in Procs |-> "path"]
Held(n) == n \in DOMAIN held /\ held[n] # 0

Begin(c) == /\ Is(c, "begin") /\ IF path = Gone THEN goal' = [goal EXCEPT ![c] = 1] /\ To(c, "open") ELSE K(goal) /\ To(c, "load")
            /\ K(<<ino, lock, held, next, path, tmp, made, left, deaths, mem, last, open>>)
Load(c) == /\ Is(c, "load") /\ mem' = [mem EXCEPT ![c] = IF path = Gone THEN 1 ELSE IF Whole(path) THEN path[1] ELSE -1]
           /\ To(c, "ready") /\ K(<<ino, lock, held, next, path, tmp, made, left, deaths, goal, last, open>>)
Change(c) == /\ Is(c, "ready") /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ made' = made + 1
             /\ mem' = [mem EXCEPT ![c] = made + 1] /\ goal' = [goal EXCEPT ![c] = made + 1]
             /\ To(c, "open") /\ K(<<ino, lock, held, next, path, tmp, deaths, last, open>>)
\* the lock, as filelock does it: opened, locked, and tried again when it is no longer at the path
Open(c) == /\ Is(c, "open")
           /\ IF ~Lock THEN To(c, "trunc") /\ K(<<ino, lock, next>>)
              ELSE /\ IF lock # 0 THEN ino' = [ino EXCEPT ![c] = lock] /\ K(<<lock, next>>)
                      ELSE lock' = next /\ next' = next + 1 /\ ino' = [ino EXCEPT ![c] = next]
                   /\ To(c, "flock")
           /\ K(<<held, path, tmp, made, left, deaths, mem, goal, last, open>>)
Flock(c) == /\ Is(c, "flock")
            /\ IF Held(ino[c]) THEN To(c, "open") /\ K(held) ELSE held' = (ino[c] :> c) @@ held /\ To(c, "verify")
            /\ K(<<ino, lock, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
Verify(c) == /\ Is(c, "verify")
             /\ IF lock = ino[c] THEN To(c, "trunc") /\ K(held) ELSE held' = [held EXCEPT ![ino[c]] = 0] /\ To(c, "open")
             /\ K(<<ino, lock, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
\* a writer keeps the file it has opened, also when it is renamed by another
Found(c) == /\ Is(c, "trunc") /\ Recheck /\ mem[c] = 0 /\ path # Gone /\ To(c, "unlink")
            /\ K(<<ino, lock, held, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
Trunc(c) == /\ Is(c, "trunc") /\ ~(Recheck /\ mem[c] = 0 /\ path # Gone) /\ (IF Atomic THEN tmp' = <<>> /\ K(path) ELSE path' = <<>> /\ K(tmp))
            /\ open' = [x \in Procs |-> IF x = c THEN (IF Atomic THEN "tmp" ELSE "path") ELSE open[x]]
            /\ To(c, "put") /\ K(<<ino, lock, held, next, made, left, deaths, mem, goal, last>>)
Put(c) == LET w(x) == IF x = Gone THEN x ELSE Append(x, goal[c]) IN
          /\ Is(c, "put") \/ Is(c, "put2")
          /\ (IF open[c] = "tmp" THEN tmp' = w(tmp) /\ K(path) ELSE path' = w(path) /\ K(tmp))
          /\ To(c, IF Is(c, "put") THEN "put2" ELSE "rename")
          /\ K(<<ino, lock, held, next, made, left, deaths, mem, goal, last, open>>)
Rename(c) == /\ Is(c, "rename")
             /\ (IF Atomic /\ tmp # Gone THEN /\ path' = tmp /\ tmp' = Gone /\ last' = goal[c]
                                               /\ open' = [x \in Procs |-> IF open[x] = "tmp" THEN "path" ELSE open[x]]
                 ELSE K(<<path, tmp, open>>) /\ last' = IF Atomic THEN last ELSE goal[c])
             /\ To(c, IF Lock THEN "unlink" ELSE "done") /\ K(<<ino, lock, held, next, made, left, deaths, mem, goal>>)
Unlink(c) == /\ Is(c, "unlink")
             /\ (IF UnlinkHeld THEN lock' = 0 /\ K(held) ELSE held' = [held EXCEPT ![ino[c]] = 0] /\ K(lock))
             /\ To(c, "release") /\ K(<<ino, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
Release(c) == /\ Is(c, "release")
              /\ (IF UnlinkHeld THEN held' = [held EXCEPT ![ino[c]] = 0] /\ K(lock) ELSE lock' = 0 /\ K(held))
              /\ To(c, "done") /\ K(<<ino, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
Done(c) == /\ Is(c, "done") /\ To(c, IF mem[c] = 0 THEN "load" ELSE "ready")
           /\ K(<<ino, lock, held, next, path, tmp, made, left, deaths, mem, goal, last, open>>)
Die(c) == /\ ~Is(c, "dead") /\ deaths < Deaths /\ deaths' = deaths + 1 /\ To(c, "dead")
          /\ held' = [n \in DOMAIN held |-> IF held[n] = c THEN 0 ELSE held[n]]
          /\ K(<<ino, lock, next, path, tmp, made, left, mem, goal, last, open>>)
Step(c) == Begin(c) \/ Load(c) \/ Change(c) \/ Open(c) \/ Flock(c) \/ Verify(c) \/ Found(c) \/ Trunc(c) \/ Put(c) \/ Rename(c) \/ Unlink(c) \/ Release(c) \/ Done(c)
Next == \E c \in Procs : Step(c) \/ Die(c)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Procs : WF_vars(Step(c))

\* what a new session would read is always one complete configuration; nobody has read anything else
OnlyWhole == (path = Gone \/ Whole(path)) /\ \A c \in Procs : mem[c] # -1
\* once a file is there it stays
Stays == [][path # Gone => path' # Gone]_vars
\* a change that is complete is in the file, unless a later one has replaced it
Kept == \A c \in Procs : Is(c, "done") => (path = <<goal[c], goal[c]>> \/ last # goal[c])
\* no session that starts puts the defaults back
NoneLost == [][(Whole(path) /\ path[1] # 1) => path'[1] # 1]_vars
OneWriter == Lock => Cardinality({c \in Procs : pc[c] \in {"trunc", "put", "put2", "rename"}}) <= 1
\* nothing is left behind when nobody died
Tidy == (deaths = 0 /\ \A c \in Procs : pc[c] = "ready") => lock = 0 /\ tmp = Gone
\* everybody who lives comes to the end
Served == \A c \in Procs : <>(Is(c, "dead") \/ (Is(c, "ready") /\ left[c] = 0))
=============================================================================
