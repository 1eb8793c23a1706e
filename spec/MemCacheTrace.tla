---------------------------- MODULE MemCacheTrace ----------------------------
(* Observed histories of the memory cache, checked against MemCache.  An event holds the
   operation, its outcome (for lookups: the version of the weights the result was computed
   from, `ver` being the version the file had at that time) and the reported statistics. *)
EXTENDS MemCache, TLC, Json, MemCacheInst

Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, at     \* trace, next line, version retained of each key
tvars == <<vars, i, l, at>>

ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)

TInit == Init /\ i \in 1..Len(Traces) /\ l = 1 /\ at = [k \in Keys |-> 0]

Info(e) == /\ e.h = hits' /\ e.m = misses'
           /\ e.cur = Total(items') /\ e.cnt = Len(items') /\ e.pol = pol'
           /\ Limited(pol') => e.max = lim'

Look(e) ==
  \/ e.res = "ok" /\ Hit(e.k) /\ e.got = at[e.k] /\ UNCHANGED at
  \/ e.res = "ok" /\ (Load(e.k) \/ LoadOff(e.k)) /\ e.got = e.ver /\ at' = [at EXCEPT ![e.k] = e.ver]
  \/ e.res = "err" /\ e.err = "ValueError" /\ Refuse(e.k) /\ UNCHANGED at

Failing(e) ==
  \/ e.res = "ok" /\ Hit(e.k) /\ e.got = at[e.k]
  \/ e.res = "err" /\ (Fail(e.k) \/ (e.err = "ValueError" /\ Refuse(e.k)))

Do(e) ==
  CASE e.op = "look" -> Look(e)
    [] e.op = "fail" -> Failing(e) /\ UNCHANGED at
    [] e.op = "none" -> e.res = "err" /\ e.err = "ValueError" /\ NotFound /\ UNCHANGED at
    [] e.op = "clear" -> Clear /\ UNCHANGED at
    [] e.op = "conf" -> Configure(e.p, e.l, e.s) /\ UNCHANGED at

TNext == /\ l <= Len(Traces[i].ev)
         /\ LET e == Traces[i].ev[l] IN Do(e) /\ Info(e)
         /\ l' = l + 1 /\ UNCHANGED i

TSpec == TInit /\ [][TNext]_tvars

Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, pol |-> pol, lim |-> lim, strict |-> strict, items |-> items,
                                    hits |-> hits, misses |-> misses, at |-> at]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
