---------------------------- MODULE GridSpecTrace ----------------------------
(* Observed comparisons: for each specification i, the numbers of the specifications it
   matched as left operand (m), as right operand (r), in inventory lookups (f: found in an
   inventory holding only j), and whether anything changed the arguments (mut). *)
EXTENDS GridSpec, TLC, Json

Traces == ndJsonDeserialize("trace.ndjson")
Specs == ndJsonDeserialize("specs.ndjson")
N == Len(Specs)

VARIABLES i, l
tvars == <<i, l>>

ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)

TInit == i \in 1..Len(Traces) /\ l = 1

Agrees(a, S) == \A j \in 1..N :
   LET s == Same(Specs[a], Specs[j])
   IN /\ (s = "yes" => j \in S)
      /\ (s = "no" => j \notin S)
ToSet(s) == {s[k] : k \in DOMAIN s}
\* the first j that is wrong (for the report)
Wrong(a, S) == {j \in 1..N : LET s == Same(Specs[a], Specs[j]) IN (s = "yes" /\ j \notin S) \/ (s = "no" /\ j \in S)}

Do(e) == CASE e.op = "cmp" -> /\ ~e.mut
                              /\ Agrees(e.i, ToSet(e.m))
                              /\ ToSet(e.m) = ToSet(e.r)
           [] e.op = "find" -> \* j \in e.js were tried, e.m were found
                 /\ ~e.mut
                 /\ \A k \in DOMAIN e.js : LET s == Same(Specs[e.i], Specs[e.js[k]])
                                           IN /\ (s = "yes" => e.js[k] \in ToSet(e.m))
                                              /\ (s = "no" => e.js[k] \notin ToSet(e.m))
           [] e.op = "bad" -> e.err # ""

TNext == /\ l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars

Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == LET e == Traces[i].ev[l] IN l > Len(Traces[i].ev) \/ e.op # "cmp" \/
        PrintT("@STATE " \o ToJson([l |-> l, spec |-> Specs[e.i], wrong |-> {Specs[j] : j \in Wrong(e.i, ToSet(e.m))}]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
