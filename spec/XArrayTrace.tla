----------------------------- MODULE XArrayTrace -----------------------------
(* Observed calls of regrid() with labelled arrays. *)
EXTENDS XArray, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l
tvars == <<i, l>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == i \in 1..Len(Traces) /\ l = 1
Names(vs) == {vs[k].n : k \in 1..Len(vs)}
Var(vs, n) == vs[CHOOSE k \in 1..Len(vs) : vs[k].n = n]
Do(e) == /\ e.kept
         /\ IF e.enginerr THEN e.err # ""
            ELSE /\ e.err = ""
                 /\ Len(e.out) = Len(e.vars) /\ Names(e.out) = Names(e.vars)
                 /\ \A n \in Names(e.vars) : LET v == Var(e.vars, n) IN Len(v.slices) = Prod(v.sizes) /\ LET o == Var(e.out, n) IN
                       [dims |-> o.dims, sizes |-> o.sizes, slices |-> o.slices] = Regridded(v, e.target)
                 /\ e.outcoords = e.coords /\ e.geo /\ e.type
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, expected |-> IF l <= Len(Traces[i].ev) THEN [k \in 1..Len(Traces[i].ev[l].vars) |-> Regridded(Traces[i].ev[l].vars[k], Traces[i].ev[l].target)] ELSE <<>>]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
