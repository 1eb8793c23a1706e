---------------------------- MODULE RemoteTrace ----------------------------
EXTENDS Remote, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, srv, disk, ses
tvars == <<i, l, srv, disk, ses>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Invs == 1..3    \* 3 is in a directory
Srv0 == [gz |-> [v |-> 1, st |-> "ok"], sha |-> [v |-> 1, st |-> "ok"], w |-> [x \in Files |-> "ok"]]
Disk0 == [k \in Invs |-> NoDisk]
TInit == /\ i \in 1..Len(Traces) /\ l = 1
         /\ srv = [k \in Invs |-> Srv0] /\ disk = Disk0
         /\ ses = [s \in 1..2 |-> [k \in Invs |-> NewSession(FALSE)]]
SetSrv(x) == [gz |-> x.gz, sha |-> x.sha, w |-> x.w]
LookRemote(e) ==
  LET sw == IF e.sw THEN SetSrv(e.to) ELSE srv[e.k]
      r == Lookup(disk[e.k], ses[e.s][e.k], srv[e.k], sw, e.p)
  IN /\ e.err = r.err /\ e.got = r.got /\ e.gz = r.gz /\ e.sha = r.sha /\ e.w = r.w /\ e.others = 0
     /\ disk' = [disk EXCEPT ![e.k] = r.disk]
     /\ ses' = [ses EXCEPT ![e.s][e.k] = r.se]
     /\ srv' = [srv EXCEPT ![e.k] = sw]
LookLocal(e) ==
  LET r == LocalLookup(ses[e.s][e.k], srv[e.k], e.p) IN
     /\ e.err = r.err /\ e.got = r.got /\ e.gz = 0 /\ e.sha = 0 /\ e.w = <<>> /\ e.others = 0
     /\ ses' = [ses EXCEPT ![e.s][e.k] = r.se] /\ UNCHANGED <<disk, srv>>
Do(e) ==
  CASE e.op = "look" -> IF e.k = 3 THEN LookLocal(e) ELSE LookRemote(e)
    [] e.op = "pub" -> srv' = [srv EXCEPT ![e.k] = SetSrv(e)] /\ UNCHANGED <<disk, ses>>
    [] e.op = "start" -> ses' = [ses EXCEPT ![e.s] = [k \in Invs |-> NewSession(e.keep)]] /\ UNCHANGED <<srv, disk>>
    [] e.op = "purge" -> disk' = Disk0 /\ UNCHANGED <<srv, ses>>
    [] e.op = "losew" -> disk' = [disk EXCEPT ![e.k] = LoseWeights(@, e.f)] /\ UNCHANGED <<srv, ses>>
    [] e.op = "losei" -> disk' = [disk EXCEPT ![e.k] = LoseIndex(@)] /\ UNCHANGED <<srv, ses>>
    [] e.op = "hurtw" -> disk' = [disk EXCEPT ![e.k].bad = @ \cup {e.f}] /\ UNCHANGED <<srv, ses>>
    [] e.op = "hurti" -> disk' = [disk EXCEPT ![e.k].bad = @ \cup {"idx"}] /\ UNCHANGED <<srv, ses>>
    [] e.op \in {"check", "retag"} -> UNCHANGED <<srv, disk, ses>>
    [] e.op = "clear" -> ses' = [ses EXCEPT ![e.s] = [k \in Invs |-> [@[k] EXCEPT !.mc = {}]]] /\ UNCHANGED <<srv, disk>>
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, srv |-> srv, disk |-> disk, ses |-> ses]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
