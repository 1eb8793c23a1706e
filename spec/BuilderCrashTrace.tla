------------------------- MODULE BuilderCrashTrace --------------------------
(* A history of additions to one inventory, some of which failed or died, and of weights made
   from coordinates.  Every event tells what is there afterwards:
   kind: whether there is an index ("none", "whole", "damaged"), obs: its entries [i, o, m, v, code, mem, shape, rec] (rec: recorded number of non-zeros,
   mem: the recorded memory is that of as many);  left: files that belong to nothing;
   looks: [i, o, m, got];  told: whether each grid definition given to the engine was right;
   out: code of the weights made (0: none).                                                   *)
EXTENDS Builder, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, inv, left, out
tvars == <<i, l, inv, left, out>>
ASSUME \A x \in 1..Len(Traces) : TLCSet(x, 0)
TInit == i \in 1..Len(Traces) /\ l = 1 /\ inv = <<>> /\ left = 0 /\ out = 0

\* entries carry the recorded number of non-zeros (nnz), of the weights of the last addition that was completed
E(e) == [i |-> e.i, o |-> e.o, s |-> e.s, code |-> e.code, nnz |-> e.nnz]
Has(v, e) == \E x \in DOMAIN v : SameKey(v[x], e)
\* only the weights have been replaced
Half(v, e) == [x \in DOMAIN v |-> IF SameKey(v[x], e) THEN [v[x] EXCEPT !.code = e.code] ELSE v[x]]
After(v, e) == IF e.res = "done" THEN {Added(v, E(e))} ELSE {v, Added(v, E(e))} \cup (IF Has(v, e) THEN {Half(v, e)} ELSE {})

Obs(v) == {[i |-> x.i, o |-> x.o, m |-> Method(x.s), v |-> SettingsTable[x.s].v, code |-> x.code, mem |-> TRUE, shape |-> TRUE, rec |-> x.nnz] : x \in Range(v)}
Shows(e, v) == /\ e.kind = (IF v = <<>> THEN "none" ELSE "whole") /\ Len(e.obs) = Len(v) /\ Range(e.obs) = Obs(v)
               /\ \A x \in DOMAIN e.looks : LET q == e.looks[x] IN q.got = FoundCode(v, q.i, q.o, q.m)
Add(e) == /\ \E v \in After(inv, e) : Shows(e, v) /\ inv' = v
          /\ (e.res = "died" \/ e.left <= left) /\ left' = e.left
          /\ UNCHANGED out
Make(e) == /\ \A x \in DOMAIN e.told : e.told[x]
           /\ IF e.res = "done" THEN e.out = e.code /\ Len(e.told) = e.grids ELSE e.out \in {out, e.code}
           /\ out' = e.out
           /\ UNCHANGED <<inv, left>>
TNext == /\ l <= Len(Traces[i].ev)
         /\ LET e == Traces[i].ev[l] IN IF e.op = "add" THEN Add(e) ELSE Make(e)
         /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, inv |-> inv]))
Report == /\ \A x \in 1..Len(Traces) : TLCGet(x) = Len(Traces[x].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> x, l |-> TLCGet(x)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
