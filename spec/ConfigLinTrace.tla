---------------------------- MODULE ConfigLinTrace ---------------------------
(* Histories of concurrent calls, recorded from the real configuration, checked for
   linearizability: each call takes effect at one moment between its invocation ("inv") and
   its return ("ret").  While a change is applied, option by option, others may already read
   the new values, also those of a change which is then rejected; but no change starts from
   them.  A temporary configuration copies what is current at one moment of the call and is
   added at another.  The invocation already holds the outcome.                           *)
EXTENDS ConfigShared, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, pend, dirty, copy
\* pend: thread -> position of its call that has not taken effect; copy: what its temporary
\* configuration has copied; dirty: what others may read, and whose change it is
tvars == <<svars, i, l, pend, dirty, copy>>
Threads == 0..4
Nobody == [t |-> 9, c |-> Defaults]
NoCopy == [on |-> FALSE, c |-> Defaults]
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Ev == Traces[i].ev
TInit == /\ i \in 1..Len(Traces) /\ l = 1 /\ pend = [t \in Threads |-> 0] /\ dirty = Nobody
         /\ copy = [t \in Threads |-> NoCopy]
         /\ stack = <<Defaults>> /\ ids = <<>> /\ file = Defaults /\ saved = Defaults
         /\ env = [o \in AllOptions |-> IF o \in DOMAIN Traces[i].id.env THEN Traces[i].id.env[o] ELSE ""]
         /\ auto = Traces[i].id.auto
Seen == IF dirty.t = 9 THEN Top(stack) ELSE dirty.c
Mine(t) == dirty.t = 9 \/ dirty.t = t
Clean == dirty' = Nobody
Prefix(items, k) == SubSeq(items, 1, k)
\* what the caches work with
Info(e) == LET g == Gets(Top(stack), env) IN
           /\ e.pol = g["weights-memory-cache-policy"]
           /\ Limited(e.pol) => e.max = g["maximum-weights-memory-cache-size"]
Effect(t, e) ==
  CASE e.op = "get" -> e.res = "ok" /\ e.got = Get(Seen, env, e.o) /\ UNCHANGED <<svars, dirty, copy>>
    [] e.op = "set" -> /\ Mine(t) /\ Clean /\ UNCHANGED copy
                       /\ IF e.res = "ok" THEN SSet(e.items) ELSE SBad(e.items)
    [] e.op = "reset" -> /\ Mine(t) /\ Clean /\ UNCHANGED copy
                         /\ IF e.res = "ok" THEN SReset(e.o) ELSE SResetBad(e.o)
    [] e.op = "enter" -> /\ Mine(t) /\ Clean /\ copy[t].on /\ copy' = [copy EXCEPT ![t] = NoCopy]
                         /\ IF e.res = "ok" THEN SEnter(copy[t].c, e.id, e.items) ELSE SEnterBad(copy[t].c, e.items)
    [] e.op = "exit" -> e.res = "ok" /\ Mine(t) /\ Clean /\ UNCHANGED copy /\ SLeave(e.id)
    \* at the end, when the others are done
    [] e.op = "end" -> /\ dirty.t = 9 /\ UNCHANGED <<svars, dirty, copy>> /\ stack = <<stack[1]>>
                       /\ (\A o \in Options : e.got[o] = Get(stack[1], env, o)) /\ Info(e)
                       /\ (auto => \A o \in Options : stack[1][o] = IF o \in DOMAIN e.file THEN e.file[o] ELSE Table[o].def)

Invoke == /\ l <= Len(Ev) /\ Ev[l].e = "inv" /\ pend' = [pend EXCEPT ![Ev[l].t] = l]
          /\ l' = l + 1 /\ UNCHANGED <<svars, i, dirty, copy>>
Act == \E t \in Threads : /\ pend[t] # 0 /\ Effect(t, Ev[pend[t]]) /\ pend' = [pend EXCEPT ![t] = 0] /\ UNCHANGED <<i, l>>
\* part of a change is visible
Show1 == \E t \in Threads : /\ pend[t] # 0 /\ Mine(t) /\ UNCHANGED <<svars, i, l, pend, copy>>
                            /\ LET e == Ev[pend[t]] IN
                               \/ /\ e.op = "set" /\ (Len(e.items) > 1 \/ e.res # "ok")
                                  /\ \E k \in 1..Len(e.items) : /\ ItemsOk(Prefix(e.items, k))
                                                                /\ dirty' = [t |-> t, c |-> Apply(Top(stack), Prefix(e.items, k))]
                               \/ /\ e.op = "reset" /\ e.res # "ok" /\ e.o \in AllOptions \cup {"*"}
                                  /\ dirty' = [t |-> t, c |-> ResetTo(e.o)]
                               \/ /\ e.op = "enter" /\ e.res # "ok" /\ copy[t].on /\ ItemsOk(e.items)
                                  /\ dirty' = [t |-> t, c |-> Apply(copy[t].c, e.items)]
                            /\ dirty' # dirty
Copy == \E t \in Threads : /\ pend[t] # 0 /\ Ev[pend[t]].op = "enter" /\ ~copy[t].on /\ dirty.t = 9
                           /\ copy' = [copy EXCEPT ![t] = [on |-> TRUE, c |-> Top(stack)]]
                           /\ UNCHANGED <<svars, i, l, pend, dirty>>
Return == /\ l <= Len(Ev) /\ Ev[l].e = "ret" /\ pend[Ev[l].t] = 0
          /\ l' = l + 1 /\ UNCHANGED <<svars, i, pend, dirty, copy>>
\* "stuck" events are never allowed
TNext == Invoke \/ Act \/ Show1 \/ Copy \/ Return
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, stack |-> [k \in DOMAIN stack |-> [o \in Options |-> stack[k][o]]], ids |-> ids, dirty |-> dirty.t,
                                    pend |-> {t \in Threads : pend[t] # 0}]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
