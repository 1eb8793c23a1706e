--------------------------- MODULE CacheFileTrace ---------------------------
(* What may be observed while several callers (threads or processes) ask for the same cache
   files, in the order in which it happens:
     inv   a call for file k begins, f: a forced refresh      ret, exc  it ends
     cs, ce  the content (numbered id) begins to be created, is complete (or has failed)
     see   what is now at the path of the file: 0 nothing, id complete content, -1 anything else
     die   the caller is killed       pinv, pret  a purge of the cache begins, ends
     stuck nobody can go on           end  the entries of the cache at the end
     keys  of many keys (numbered): the file (numbered) and the key that made its content     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, cont, act, ready, born, pend, purging
tvars == <<i, l, cont, act, ready, born, pend, purging>>
Files == 1..2
Callers == 0..5
Free == [k |-> 0, f |-> FALSE, at |-> 0, made |-> 0, failed |-> FALSE, pur |-> FALSE, vis |-> {}, gone |-> FALSE]
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == /\ i \in 1..Len(Traces) /\ l = 1
         /\ cont = [k \in Files |-> 0] /\ act = [k \in Files |-> 0] /\ ready = {} /\ born = <<>>
         /\ pend = [c \in Callers |-> Free] /\ purging = {}
Mark(p) == [c \in Callers |-> IF p[c].k # 0 THEN [p[c] EXCEPT !.pur = TRUE] ELSE p[c]]

Inv(e) == /\ pend[e.c].k = 0 /\ e.c \notin purging
          /\ pend' = [pend EXCEPT ![e.c] = [Free EXCEPT !.k = e.k, !.f = e.f, !.at = l, !.pur = purging # {}, !.vis = {cont[e.k]}]]
          /\ UNCHANGED <<cont, act, ready, born, purging>>
\* one creation of a file at a time, at most one by each call, none while the file is there
\* unless a refresh is asked for
CStart(e) == /\ pend[e.c].k = e.k /\ pend[e.c].made = 0 /\ act[e.k] = 0
             /\ e.id = Len(born) + 1
             /\ pend[e.c].f \/ cont[e.k] = 0
             /\ act' = [act EXCEPT ![e.k] = e.id] /\ born' = Append(born, 0)
             /\ pend' = [pend EXCEPT ![e.c].made = e.id]
             /\ UNCHANGED <<cont, ready, purging>>
CEnd(e) == /\ act[e.k] = e.id /\ act' = [act EXCEPT ![e.k] = 0]
           /\ IF e.ok THEN ready' = ready \cup {e.id} /\ UNCHANGED pend
              ELSE pend' = [pend EXCEPT ![e.c].failed = TRUE] /\ UNCHANGED ready
           /\ UNCHANGED <<cont, purging, born>>
\* only complete content appears; it only disappears by a purge
See(e) == /\ IF e.x = 0 THEN cont[e.k] # 0 /\ purging # {} /\ UNCHANGED <<ready, born>>
             ELSE e.x \in ready /\ ready' = ready \ {e.x} /\ born' = [born EXCEPT ![e.x] = l]
          /\ cont' = [cont EXCEPT ![e.k] = e.x]
          /\ pend' = [c \in Callers |-> IF pend[c].k = e.k
                                        THEN [pend[c] EXCEPT !.vis = @ \cup {e.x},
                                                             !.gone = @ \/ (e.x = 0 /\ pend[c].made # 0 /\ cont[e.k] # 0
                                                                             /\ born[pend[c].made] # 0)]
                                        ELSE pend[c]]
          /\ UNCHANGED <<act, purging>>
Ret(e) == LET p == pend[e.c] IN
          /\ p.k = e.k /\ ~p.failed /\ e.path = e.k
          /\ \/ e.got = cont[e.k] /\ e.got # 0
             \/ p.pur /\ e.got \in p.vis \cup {0}
          /\ (p.f /\ e.got # 0 => born[e.got] > p.at)
          /\ pend' = [pend EXCEPT ![e.c] = Free] /\ UNCHANGED <<cont, act, ready, born, purging>>
\* the file it has created may be gone before it is noted when the cache is purged at the same
\* time (and another one may have been created since)
Exc(e) == /\ LET p == pend[e.c] IN
             IF p.failed THEN TRUE ELSE p.pur /\ p.gone
          /\ pend' = [pend EXCEPT ![e.c] = Free] /\ UNCHANGED <<cont, act, ready, born, purging>>
\* what the dead was creating is given up
Die(e) == LET k == pend[e.c].k IN
          /\ pend' = [pend EXCEPT ![e.c] = Free]
          /\ act' = IF k # 0 /\ e.creating THEN [act EXCEPT ![k] = 0] ELSE act
          /\ purging' = purging \ {e.c} /\ UNCHANGED <<cont, ready, born>>
PInv(e) == purging' = purging \cup {e.c} /\ pend' = Mark(pend) /\ UNCHANGED <<cont, act, ready, born>>
PRet(e) == e.res = "ok" /\ purging' = purging \ {e.c} /\ UNCHANGED <<cont, act, ready, born, pend>>
End(e) == /\ e.listed = {k \in Files : cont[k] # 0} /\ \A c \in Callers : pend[c].k = 0
          /\ UNCHANGED <<cont, act, ready, born, pend, purging>>
\* one file for each key, and the content is that of the key
Keys(e) == /\ \A x \in DOMAIN e.asked : e.asked[x].got = e.asked[x].k
           /\ \A x, y \in DOMAIN e.asked : (e.asked[x].k = e.asked[y].k) <=> (e.asked[x].p = e.asked[y].p)
           /\ UNCHANGED <<cont, act, ready, born, pend, purging>>
Do(e) == CASE e.e = "inv" -> Inv(e) [] e.e = "cs" -> CStart(e) [] e.e = "ce" -> CEnd(e) [] e.e = "see" -> See(e)
           [] e.e = "ret" -> Ret(e) [] e.e = "exc" -> Exc(e) [] e.e = "die" -> Die(e)
           [] e.e = "pinv" -> PInv(e) [] e.e = "pret" -> PRet(e)
           [] e.e = "end" -> End([e EXCEPT !.listed = {e.listed[j] : j \in DOMAIN e.listed}]) /\ Len(e.listed) = Cardinality({e.listed[j] : j \in DOMAIN e.listed})
           [] e.e = "keys" -> Keys(e)
           [] e.e = "stuck" -> FALSE /\ UNCHANGED <<cont, act, ready, born, pend, purging>>
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, cont |-> cont, act |-> act, ready |-> ready, pend |-> {c \in Callers : pend[c].k # 0}, purging |-> purging]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
