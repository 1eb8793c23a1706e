---------------------------- MODULE BuilderTrace ----------------------------
(* A history: every event tells the inventories as they are afterwards.
   obs[k]: set of [i, o, m, v, code, mem, shape] (mem, shape: whether the recorded memory size
   and the output shape are those of the weights), or "none" when there is no index;
   looks: [k, i, o, m, got] results of regridding (got 0: refused).                          *)
EXTENDS Builder, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, invs
tvars == <<i, l, invs>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
None == <<Entry(0, 0, 1, 0)>>
TInit == i \in 1..Len(Traces) /\ l = 1 /\ invs = [k \in 1..4 |-> None]

Obs(inv) == IF inv = None THEN {"none"}
            ELSE {[i |-> x.i, o |-> x.o, m |-> Method(x.s), v |-> SettingsTable[x.s].v, code |-> x.code, mem |-> TRUE, shape |-> TRUE] : x \in Range(inv)}
Base(inv) == IF inv = None THEN <<>> ELSE inv
Shows(e, v) ==
  /\ \A k \in 1..4 : Range(e.obs[k]) = Obs(v[k]) /\ Len(e.obs[k]) = Len(Base(v[k])) + (IF v[k] = None THEN 1 ELSE 0)
  /\ \A n \in DOMAIN e.looks : LET q == e.looks[n] IN q.got = FoundCode(Base(v[q.k]), q.i, q.o, q.m)

Ok(e) == e.err = ""
Next(e) ==
  CASE e.op = "add" -> IF e.bad THEN ~Ok(e) /\ UNCHANGED invs
                       ELSE Ok(e) /\ invs' = [invs EXCEPT ![e.k] = Added(Base(@), Entry(e.i, e.o, e.s, e.code))]
    [] e.op = "subset" ->   \* into inventory 3 (which is new unless e.used)
         IF Missing(Base(invs[e.k]), e.fs) /\ ~e.allow THEN ~Ok(e) /\ invs' = [invs EXCEPT ![3] = IF e.used THEN @ ELSE None]
         ELSE IF e.strict /\ e.used /\ ~e.dry THEN ~Ok(e) /\ UNCHANGED invs
         ELSE Ok(e) /\ invs' = [invs EXCEPT ![3] = IF e.dry THEN IF e.used THEN @ ELSE None ELSE Subset(Base(invs[e.k]), e.fs)]
    [] e.op = "merge" ->    \* of 1 and 2 into 4
         Ok(e) /\ invs' = [invs EXCEPT ![4] = IF e.dry THEN None ELSE Merged(Base(invs[1]), Base(invs[2]))]
TNext == /\ l <= Len(Traces[i].ev)
         /\ LET e == Traces[i].ev[l] IN Next(e) /\ Shows(e, invs')
         /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, invs |-> invs]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
