----------------------------- MODULE RegridTrace -----------------------------
(* Observed histories of regridding with precomputed weights from several inventories,
   under changing configurations of the memory cache.  The result of a call only depends
   on the inventory asked and on the arguments; apart from that it may only be refused for
   its size in strict mode.                                                                *)
EXTENDS Inventory, TLC, Json

Traces == ndJsonDeserialize("trace.ndjson")
Invs == ndJsonDeserialize("invs.ndjson")
VARIABLES i, l, conf
tvars == <<i, l, conf>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)

TInit == i \in 1..Len(Traces) /\ l = 1 /\ conf = [p |-> "largest", l |-> 0, s |-> FALSE]

Limited(p) == p \in {"lru", "largest"}
MayRefuse(S) == conf.s /\ Limited(conf.p) /\ \E e \in S : e.mem > conf.l

Regrid(e) ==
  LET v == Invs[e.inv]
      S == Matches(v, e.i, e.o, e.m)
  IN /\ ~e.mut
     /\ IF ~Loadable(v) THEN e.res = "err"
        ELSE IF S = {} THEN e.res = "err" /\ e.err = "ValueError"
        ELSE \/ e.res = "ok" /\ \E x \in S : e.got = x.code /\ e.shape = x.shape
             \/ e.res = "err" /\ e.err = "ValueError" /\ MayRefuse(S)

Do(e) == CASE e.op = "regrid" -> Regrid(e) /\ UNCHANGED conf
           [] e.op = "clear" -> UNCHANGED conf
           [] e.op = "conf" -> conf' = [p |-> e.p, l |-> e.l, s |-> e.s]

TNext == /\ l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, conf |-> conf,
           expected |-> IF l <= Len(Traces[i].ev) /\ Traces[i].ev[l].op = "regrid"
                        THEN LET e == Traces[i].ev[l] IN Matches(Invs[e.inv], e.i, e.o, e.m) ELSE {}]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
