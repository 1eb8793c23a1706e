------------------------------ MODULE RemoteMC ------------------------------
(* One inventory on a server used by two sessions sharing a cache. *)
EXTENDS Remote, Json
CONSTANTS Sessions, Vs, Ps, Sts, Wsts, Bound,
          Hurt      \* whether files of the cache get damaged and lost
VARIABLES srv, disk, ses, n, last
vars == <<srv, disk, ses, n, last>>
Wmap(st) == [w \in Files |-> st]
MCInit == /\ srv = [gz |-> [v |-> 1, st |-> "ok"], sha |-> [v |-> 1, st |-> "ok"], w |-> Wmap("ok")]
          /\ disk = NoDisk
          /\ ses \in [Sessions -> {NewSession(TRUE), NewSession(FALSE)}]
          /\ n = 0 /\ last = [op |-> "init"]
Step == n < Bound /\ n' = n + 1
Pub(v, sv, st, sst, wst) ==
  /\ srv' = [gz |-> [v |-> v, st |-> st], sha |-> [v |-> sv, st |-> sst], w |-> Wmap(wst)] /\ srv' # srv
  /\ Step /\ last' = [op |-> "pub", gz |-> srv'.gz, sha |-> srv'.sha, wst |-> wst]
  /\ UNCHANGED <<disk, ses>>
Look(s, p) == LET r == Lookup(disk, ses[s], srv, srv, p) IN
  /\ Step /\ disk' = r.disk /\ ses' = [ses EXCEPT ![s] = r.se] /\ UNCHANGED srv
  /\ last' = [op |-> "look", s |-> s, p |-> p, r |-> r]
Restart(s) == /\ Step /\ ses' = [ses EXCEPT ![s] = NewSession(@.keep)] /\ last' = [op |-> "start", s |-> s] /\ UNCHANGED <<srv, disk>>
Purge == /\ Step /\ disk' = NoDisk /\ disk # disk' /\ last' = [op |-> "purge"] /\ UNCHANGED <<srv, ses>>
Harm(x) == /\ Step /\ x \notin disk.bad /\ disk' = [disk EXCEPT !.bad = @ \cup {x}] /\ last' = [op |-> "hurt", f |-> x] /\ UNCHANGED <<srv, ses>>
Lose(x) == /\ Step /\ disk' = (IF x = "idx" THEN LoseIndex(disk) ELSE LoseWeights(disk, x)) /\ last' = [op |-> "lose", f |-> x] /\ UNCHANGED <<srv, ses>>
OnDisk == disk.ws \cup (IF disk.idx = 0 THEN {} ELSE {"idx"})
MCNext == \/ Hurt /\ \E x \in OnDisk : Harm(x) \/ Lose(x)
          \/ \E v, sv \in Vs, st, sst \in Sts, wst \in Wsts : Pub(v, sv, st, sst, wst)
          \/ \E s \in Sessions, p \in Ps : Look(s, p)
          \/ \E s \in Sessions : Restart(s)
          \/ Purge
Repaired(d) == IF "idx" \in d.bad THEN LoseIndex([d EXCEPT !.ws = @ \ d.bad, !.bad = {"idx"}]) ELSE [d EXCEPT !.ws = @ \ d.bad, !.bad = {}]
MCSpec == MCInit /\ [][MCNext]_vars

IsLook == last'.op = "look"
R == last'.r
\* with an index that has a match nothing is asked about the index; weights at hand are not asked for
QuietProp == [][IsLook => LET s == last'.s IN
   /\ (ses[s].mem # 0 /\ Holds(ses[s].mem, last'.p)) => R.gz = 0 /\ R.sha = 0
   /\ (ses[s].mem = 0 /\ disk.idx # 0 /\ Holds(disk.idx, last'.p)) => R.gz = 0 /\ R.sha = 0
   /\ \A k \in DOMAIN R.w : R.w[k] \notin disk.ws]_vars
\* the checksum is consulted successfully once at most per session
OnceProp == [][IsLook => (ses[last'.s].checked => R.sha = 0 /\ R.gz <= 1)]_vars
\* the index is fetched again exactly if the checksum is another one
ExactProp == [][IsLook /\ R.sha = 1 /\ R.err # "fail" /\ disk.idx # 0 => (R.gz = 1) = (srv.sha.v # disk.idx)]_vars
\* nothing but a refreshed index remains of a failure
NoTraceProp == [][IsLook /\ R.err = "fail" => /\ disk'.ws = disk.ws /\ disk'.idx \in {disk.idx, srv.gz.v}
                                             /\ ses'[last'.s].mc = ses[last'.s].mc
                                             /\ (disk.idx # 0 => disk'.idx # 0)
                                             /\ (R.w = <<>> => ses'[last'.s].checked = ses[last'.s].checked)]_vars
\* whenever the server is right, what it holds is found by a session that has not checked yet
Healthy == Good(srv.gz) /\ Good(srv.sha) /\ srv.gz.v = srv.sha.v /\ \A w \in Files : srv.w[w] = "ok"
Recovers == Healthy /\ disk.bad = {} => \A s \in Sessions, p \in Ps :
   LET r == Lookup(disk, ses[s], srv, srv, p) IN
   /\ r.err # "fail"
   /\ (Holds(srv.gz.v, p) /\ ~ses[s].checked) => r.err = ""
\* what a failure leaves does not change the answer once the cause has gone
SameAnswer == [][IsLook /\ R.err = "fail" =>
   \A v \in Vs : LET h == [gz |-> [v |-> v, st |-> "ok"], sha |-> [v |-> v, st |-> "ok"], w |-> Wmap("ok")] IN
   \A p \in Ps : LET x == Lookup(disk, ses[last'.s], h, h, p)
                     y == Lookup(disk', ses'[last'.s], h, h, p)
                     u == Lookup(Repaired(disk), ses[last'.s], h, h, p)
                     z == Lookup(Repaired(disk'), ses'[last'.s], h, h, p)
                 IN (x.err = "" => y.err = "") /\ (u.err = "" => z.err = "")]_vars
BadInv == disk.bad \subseteq OnDisk
View == <<srv, disk, ses, n>>
PrintEdge == PrintT("@EDGE " \o ToJson([s |-> [srv |-> srv, disk |-> disk, ses |-> ses, n |-> n], op |-> last', t |-> [srv |-> srv', disk |-> disk', ses |-> ses', n |-> n']]))
PrintInit == n > 0 \/ PrintT("@INIT " \o ToJson([srv |-> srv, disk |-> disk, ses |-> ses, n |-> n]))
=============================================================================
