--------------------------- MODULE ConfigFileTrace ---------------------------
(* What may be observed while several processes share the configuration file, in the order in
   which it happens:
     start, up   a session begins, has loaded the configuration: get, its values
     set, ret    a change is asked for: to, the values which the session then has; it is done
     see   what is now at the path of the file: the values it holds, or bad
     die   the process is killed     stuck  nobody can go on
     end   a last session has started, changed something and looked at the directory        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, file, mem, pend
tvars == <<i, l, file, mem, pend>>
Procs == 1..5
Free == [k |-> "", to |-> <<>>, wrote |-> FALSE, vis |-> {}, none |-> FALSE]
Nothing == <<>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
D == Traces[i].id.defaults
TInit == /\ i \in 1..Len(Traces) /\ l = 1 /\ mem = [c \in Procs |-> Nothing] /\ pend = [c \in Procs |-> Free]
         /\ file = Traces[i].id.first
None(f) == f.has = FALSE
Start(e) == /\ pend' = [pend EXCEPT ![e.c] = [Free EXCEPT !.k = "start", !.to = D, !.vis = IF None(file) THEN {} ELSE {file.v}, !.none = None(file)]]
            /\ UNCHANGED <<file, mem>>
\* one of the configurations which were in the file meanwhile, or the defaults without one
Up(e) == LET p == pend[e.c] IN
         /\ p.k = "start" /\ e.umask
         /\ e.get \in p.vis \/ (p.none /\ e.get = D)
         /\ ~None(file)
         /\ mem' = [mem EXCEPT ![e.c] = e.get] /\ pend' = [pend EXCEPT ![e.c] = Free] /\ UNCHANGED file
Set(e) == /\ pend[e.c].k = "" /\ mem[e.c] # Nothing /\ e.from = mem[e.c]
          /\ pend' = [pend EXCEPT ![e.c] = [Free EXCEPT !.k = "set", !.to = e.to]] /\ UNCHANGED <<file, mem>>
\* it was in the file when it was done
Ret(e) == LET p == pend[e.c] IN
          /\ p.k = "set" /\ e.get = p.to /\ (p.wrote \/ p.to = mem[e.c])
          /\ mem' = [mem EXCEPT ![e.c] = p.to] /\ pend' = [pend EXCEPT ![e.c] = Free] /\ UNCHANGED file
\* a configuration appears as a whole, by a change in progress, or by a start without a file, which replaces no other
See(e) == /\ e.has /\ ~e.bad
          /\ pend[e.c].k # "" /\ ~pend[e.c].wrote /\ pend[e.c].to = e.v
          /\ (pend[e.c].k = "start" => None(file) \/ (pend[e.c].none /\ file.v = D))
          /\ file' = [has |-> TRUE, v |-> e.v]
          /\ pend' = [c \in Procs |-> [(IF c = e.c THEN [pend[c] EXCEPT !.wrote = TRUE] ELSE pend[c]) EXCEPT !.vis = @ \cup {e.v}]]
          /\ UNCHANGED mem
Die(e) == pend' = [pend EXCEPT ![e.c] = [Free EXCEPT !.k = "dead"]] /\ mem' = [mem EXCEPT ![e.c] = Nothing] /\ UNCHANGED file
\* no lock or other file stays, unless of one who was killed
End(e) == (e.left = 0 \/ \E c \in Procs : pend[c].k = "dead") /\ ~None(file) /\ UNCHANGED <<file, mem, pend>>
Do(e) == CASE e.e = "start" -> Start(e) [] e.e = "up" -> Up(e) [] e.e = "set" -> Set(e) [] e.e = "ret" -> Ret(e) [] e.e = "see" -> See(e)
           [] e.e = "die" -> Die(e) [] e.e = "end" -> End(e)
           [] e.e \in {"stuck", "error"} -> FALSE /\ UNCHANGED <<file, mem, pend>>
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, file |-> file, pend |-> {c \in Procs : pend[c].k # ""}]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
