--------------------------- MODULE DiskCacheTrace ---------------------------
(* Observed histories of the disk cache.  After every operation the driver reports the
   policy, the entries with their sizes and owner data, the totals, and which complete
   content (a version) is at the path of every key.                                     *)
EXTENDS DiskCache, Json
CONSTANTS Enforce
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, ver, paths, tdirs
\* ver: version of the content of entries: <<directory, key>> -> number; paths: the same -> path
\* tdirs: the temporary directories that must have vanished
tvars == <<dvars, i, l, ver, paths, tdirs>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
On(p) == p \in Enforce
None == [x \in {} |-> 0]
TInit == DInit /\ udir = "u1" /\ i \in 1..Len(Traces) /\ l = 1 /\ ver = None /\ paths = None /\ tdirs = {}

ToSet(s) == {s[n] : n \in DOMAIN s}
IsForce(f) == f \in {"true", "fn1"}
Here == IF pol = "user" THEN udir ELSE "t"

\* what is observed of the directory in use
NDir == IF pol' = "user" THEN user'[udir'] ELSE temp'
NHere == IF pol' = "user" THEN udir' ELSE "t"
Listed(e) ==
  IF pol' = "off" THEN On("C13") => ~e.managed
  ELSE
  /\ e.managed
  /\ On("C11") \/ On("C12") =>
       /\ {[k |-> x.k, size |-> x.size] : x \in ToSet(e.entries)} = {[k |-> k, size |-> NDir.at[k].size] : k \in Real(NDir)}
       /\ Len(e.entries) = Cardinality(Real(NDir))
       /\ \A x \in ToSet(e.entries) : x.args
       /\ e.count = Cardinality(Real(NDir)) /\ e.sum = RealTotal(NDir)
       /\ e.total \in {RealTotal(NDir), Total(NDir)}
  /\ On("C14") => \A x \in ToSet(e.entries) : Has(NDir, x.k) => x.od = NDir.at[x.k].od
  \* the files themselves
  /\ {x.k : x \in ToSet(e.vis)} = Real(NDir)
  /\ \A x \in ToSet(e.vis) : x.whole /\ <<NHere, x.k>> \in DOMAIN ver' /\ ver'[<<NHere, x.k>>] = x.n
Temps(e) == /\ On("C13") => /\ ToSet(e.gone) \subseteq tdirs'
                            /\ tdirs' \subseteq ToSet(e.gone)
                            /\ e.pol = pol'
                            /\ e.place
            /\ On("C11") \/ On("C13") => e.outside

\* consulted exactly if the entry exists, with what is stored of it
Asked(e) == IF Managed /\ Present(Dir, e.k) /\ e.f \in {"fn0", "fn1"}
            THEN On("C14") => /\ Len(e.asked) = 1 /\ e.asked[1].od = Dir.at[e.k].od /\ e.asked[1].args /\ e.asked[1].path
            ELSE On("C14") => e.asked = <<>>
KeepTemps == tdirs' = tdirs
PathOk(e) == /\ (<<Here, e.k>> \in DOMAIN paths => paths[<<Here, e.k>>] = e.path)
             /\ \A q \in DOMAIN paths : q[1] = Here /\ q[2] # e.k => paths[q] # e.path
             /\ paths' = (<<Here, e.k>> :> e.path) @@ paths
Req(e) ==
  \/ e.err = "" /\ Managed /\ Hit(e.k, IsForce(e.f)) /\ e.created = 0 /\ ver' = ver /\ e.got = ver[<<Here, e.k>>] /\ PathOk(e)
  \/ e.err = "" /\ Managed /\ Create(e.k, IsForce(e.f), e.size, e.od) /\ e.created = 1 /\ e.got = e.n
       /\ ver' = (<<Here, e.k>> :> e.n) @@ ver /\ PathOk(e)
  \/ e.err = e.how /\ Managed /\ Fail(e.k, IsForce(e.f)) /\ e.created = 1 /\ UNCHANGED <<ver, paths>>
  \/ e.err = "" /\ Off /\ e.created = 1 /\ e.got = e.n /\ e.path \notin {paths[q] : q \in DOMAIN paths}
       /\ paths' = (<<"off", e.n>> :> e.path) @@ paths /\ ver' = ver
  \/ e.err = e.how /\ Off /\ e.created = 1 /\ UNCHANGED <<ver, paths>>
Touched(d) == {d} \cup {Touch(d, k) : k \in Range(d.acc)}
\* a session dies somewhere in a request: what it was doing has happened or not; it may have
\* got as far as removing the first of the entries to be evicted, and not to recording the size
\* an entry may be left whose file is gone already
Lost(d, k) == IF Present(d, k) THEN {d, [d EXCEPT !.at[k].lost = TRUE]} ELSE {d}
Killed(e) ==
  /\ pol = "user" /\ Same /\ temp' = Empty
  /\ \E d \in {Dir, Failed(Dir, e.k), Drop(Dir, e.k)} \cup Lost(Touch(Dir, e.k), e.k) \cup
              (IF Creates(e.k, IsForce(e.f))
               THEN {Put(Dir, e.k, e.size, o) : o \in {"", e.od}} ELSE {Touch(Dir, e.k)}) :
       \E t \in {d} \cup Trims(d, lim, pct) : user' = [user EXCEPT ![udir] = t]
  /\ \E new \in BOOLEAN : ver' = (IF new THEN (<<Here, e.k>> :> e.n) @@ ver ELSE ver)
  /\ UNCHANGED paths
Matching(e) == CASE e.m = "all" -> Keys [] e.m = "keys" -> ToSet(e.ks) [] e.m = "big" -> {k \in Keys : Dir.at[k].size > e.size} [] e.m = "none" -> {}
DropTemp(p) == tdirs' = tdirs \cup (IF p THEN {e0 \in ToSet(Traces[i].ev[l].was) : TRUE} ELSE {})

Do(e) ==
  CASE e.op = "req" -> Asked(e) /\ Req(e) /\ KeepTemps
    [] e.op = "kill" -> Killed(e) /\ DropTemp(FALSE)
    [] e.op = "purge" -> IF Managed THEN Purge(Matching(e)) /\ UNCHANGED <<ver, paths>> /\ KeepTemps ELSE UNCHANGED <<dvars, ver, paths>> /\ KeepTemps
    [] e.op = "lose" -> Lose(e.k) /\ UNCHANGED <<ver, paths>> /\ KeepTemps
    [] e.op = "limit" -> Limit(e.l, e.q) /\ UNCHANGED <<ver, paths>> /\ KeepTemps
    [] e.op = "policy" -> Policy(e.p, FALSE) /\ UNCHANGED ver /\ DropTemp(e.p # pol)
                          /\ paths' = [q \in {q \in DOMAIN paths : q[1] # "t" \/ e.p = pol} |-> paths[q]]
    [] e.op = "root" -> Policy(pol, pol = "temporary") /\ UNCHANGED ver /\ DropTemp(pol # "user")
                          /\ paths' = [q \in {q \in DOMAIN paths : q[1] # "t"} |-> paths[q]]
    [] e.op = "other" -> UNCHANGED <<dvars, ver, paths>> /\ KeepTemps
    [] e.op = "move" -> Move(e.u) /\ UNCHANGED <<ver, paths>> /\ KeepTemps
    [] e.op = "session" -> Session /\ UNCHANGED ver /\ DropTemp(TRUE)
                          /\ paths' = [q \in {q \in DOMAIN paths : q[1] # "t"} |-> paths[q]]

TNext == /\ l <= Len(Traces[i].ev)
         /\ LET e == Traces[i].ev[l] IN Do(e) /\ Listed(e) /\ Temps(e)
         /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, pol |-> pol, udir |-> udir, lim |-> lim, pct |-> pct, dir |-> Dir, tdirs |-> tdirs]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
