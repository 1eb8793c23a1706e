--------------------------- MODULE DownloadTrace ---------------------------
EXTENDS Download, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, srv, disk, chk, dl
tvars == <<i, l, srv, disk, chk, dl>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Urls == 1..6
Srv0 == [v |-> 0, st |-> "gone", head |-> TRUE, tag |-> TRUE]
TInit == /\ i \in 1..Len(Traces) /\ l = 1
         /\ srv = [u \in Urls |-> Srv0] /\ disk = [u \in Urls |-> None] /\ chk = FALSE /\ dl = FALSE

\* the files seen in the cache afterwards: [u, v, whole]
Shows(e, d) == /\ {[u |-> x.u, v |-> x.v, whole |-> x.whole] : x \in {e.vis[k] : k \in DOMAIN e.vis}} = {[u |-> u, v |-> d[u].v, whole |-> TRUE] : u \in {u \in Urls : d[u].v # 0}}
               /\ Len(e.vis) = Cardinality({u \in Urls : d[u].v # 0})
DoGet(e) ==
  LET r == Get(disk[e.u], srv[e.u], chk, dl, e.force, e.upd) IN
  IF e.line > 0 /\ e.err = "die"
  THEN \E d \in Died(disk[e.u], srv[e.u], chk, dl, e.force, e.upd) : disk' = [disk EXCEPT ![e.u] = d]
  ELSE IF e.err \in {"die", "stop"}
  THEN /\ e.how = e.err /\ r.down /\ UNCHANGED disk
  ELSE /\ e.err = IF r.err THEN "fail" ELSE ""
       /\ e.got = r.got
       /\ (e.gets > 0) = r.down
       /\ ~Contact(disk[e.u], chk, e.force) => e.reqs = 0
       /\ e.others = 0
       /\ disk' = [disk EXCEPT ![e.u] = r.d]
Do(e) ==
  CASE e.op = "get" -> DoGet(e) /\ Shows(e, disk') /\ UNCHANGED <<srv, chk, dl>>
    [] e.op = "pub" -> srv' = [srv EXCEPT ![e.u] = [v |-> e.v, st |-> e.st, head |-> e.head, tag |-> e.tag]] /\ UNCHANGED <<disk, chk, dl>>
    [] e.op = "conf" -> chk' = e.chk /\ dl' = e.dl /\ UNCHANGED <<disk, srv>>
    [] e.op = "session" -> UNCHANGED <<disk, srv>> /\ chk' = FALSE /\ dl' = FALSE
    [] e.op = "lose" -> disk' = [disk EXCEPT ![e.u] = None] /\ UNCHANGED <<srv, chk, dl>>
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, srv |-> srv, disk |-> disk, chk |-> chk, dl |-> dl]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
