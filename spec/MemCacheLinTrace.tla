-------------------------- MODULE MemCacheLinTrace --------------------------
(* Histories of concurrent calls, recorded from the real memory cache, checked for
   linearizability: each call takes effect at one moment between its invocation and its
   return.  An event is the invocation ("inv") or the return ("ret") of a call of a thread; the
   invocation already holds the outcome, so that an order which does not explain it is given
   up at once.  `loads` is how often the call read weights from the disk.               *)
EXTENDS MemCache, TLC, Json, MemCacheInst
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, pend     \* pend: thread -> position of its call that has not taken effect
tvars == <<vars, i, l, pend>>
Threads == 0..4
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)

TInit == Init /\ i \in 1..Len(Traces) /\ l = 1 /\ pend = [t \in Threads |-> 0]
Info(e) == /\ e.h = hits /\ e.m = misses /\ e.cur = Total(items) /\ e.cnt = Len(items) /\ e.pol = pol
           /\ (Limited(pol) => e.max = lim)

Effect(e) ==
  CASE e.op = "look" ->
         \/ e.res = "ok" /\ e.got = 1 /\ e.loads = 0 /\ Hit(e.k)
         \/ e.res = "ok" /\ e.got = 1 /\ e.loads = 1 /\ (Load(e.k) \/ LoadOff(e.k))
         \/ e.res = "err" /\ e.loads = 0 /\ e.err = "ValueError" /\ Refuse(e.k)
    [] e.op = "fail" ->
         \/ e.res = "ok" /\ e.got = 1 /\ e.loads = 0 /\ Hit(e.k)
         \/ e.res = "err" /\ (Fail(e.k) \/ (e.err = "ValueError" /\ Refuse(e.k)))
    [] e.op = "none" -> e.res = "err" /\ e.err = "ValueError" /\ NotFound
    [] e.op = "clear" -> e.res = "ok" /\ Clear
    [] e.op = "info" -> e.res = "ok" /\ Info(e) /\ UNCHANGED vars
    [] e.op = "cfg" -> e.res = "ok" /\ e.p = pol /\ e.s = strict /\ e.l = lim /\ UNCHANGED vars
    [] e.op = "conf" -> e.res = "ok" /\ Configure(e.p, e.l, e.s)
    [] e.op = "setpol" -> e.res = "ok" /\ Configure(e.p, lim, strict)
    [] e.op = "setlim" -> e.res = "ok" /\ Configure(pol, e.l, strict)
    [] e.op = "setstrict" -> e.res = "ok" /\ Configure(pol, lim, e.s)
    [] e.op = "badconf" -> e.res = "err" /\ UNCHANGED vars

Ev == Traces[i].ev
Invoke == /\ l <= Len(Ev) /\ Ev[l].e = "inv" /\ pend' = [pend EXCEPT ![Ev[l].t] = l]
          /\ l' = l + 1 /\ UNCHANGED <<vars, i>>
Act == \E t \in Threads : /\ pend[t] # 0 /\ Effect(Ev[pend[t]]) /\ pend' = [pend EXCEPT ![t] = 0]
                          /\ UNCHANGED <<i, l>>
Return == /\ l <= Len(Ev) /\ Ev[l].e = "ret" /\ pend[Ev[l].t] = 0
          /\ l' = l + 1 /\ UNCHANGED <<vars, i, pend>>
\* "stuck" events are never allowed
TNext == Invoke \/ Act \/ Return
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, pol |-> pol, lim |-> lim, strict |-> strict, items |-> items,
                                    hits |-> hits, misses |-> misses, pend |-> {t \in Threads : pend[t] # 0}]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
