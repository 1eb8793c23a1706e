---------------------------- MODULE OptionsTrace ----------------------------
(* Observed calls of regrid() and what the engine was told. *)
EXTENDS Options, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l
tvars == <<i, l>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == i \in 1..Len(Traces) /\ l = 1
Do(e) == /\ Len(e.jobs) >= 1
         /\ \A k \in 1..Len(e.jobs) : Serves(e.jobs[k], [given |-> e.given, grid |-> e.grid, area |-> e.area])
         /\ e.kept                                          \* the caller's objects are as they were
         /\ e.inputs                                        \* the engine was given the data of the caller
         /\ (e.err = "") = (e.enginerr = "")                            \* and what it gives is what the caller gets
         /\ (e.err = "" => e.same)
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, told |-> IF l <= Len(Traces[i].ev) THEN [o \in Names |-> Told(Traces[i].ev[l].given, o)] ELSE <<>>]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
