--------------------------- MODULE HighLevelTrace ---------------------------
(* Observed calls of regrid(). *)
EXTENDS HighLevel, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l
tvars == <<i, l>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == i \in 1..Len(Traces) /\ l = 1
Call(e) == [kind |-> e.kind, items |-> e.items, backend |-> [name |-> e.backend, inv |-> e.inv], target |-> e.target, method |-> e.method,
            weights |-> {e.weights[k] : k \in 1..Len(e.weights)}]
\* what the call may end with: an error of the engine itself about a field is passed on
Do(e) == LET o == Outcome(Call(e)) IN
   /\ e.kept                                            \* neither the data nor the options of the caller change
   /\ IF o.err # "" THEN IF Unsupported(Call(e)) \/ \A k \in 1..Len(e.items) : e.items[k].ok THEN e.err = o.err ELSE e.err # ""
      ELSE IF e.enginerr # "" THEN e.err # ""
      ELSE e.err = "" /\ e.out = o.out /\ e.type = (IF e.kind = "stream" THEN "bytes" ELSE e.kind)
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, expected |-> IF l <= Len(Traces[i].ev) THEN Outcome(Call(Traces[i].ev[l])) ELSE <<>>]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
