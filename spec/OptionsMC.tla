----------------------------- MODULE OptionsMC -----------------------------
(* The way of the options through the layers: regrid() hands a copy of what the caller gave to the handler of the
   type of the data, which takes out what is for itself, the backend brings the rest into the form of the engine,
   once for every field.  Each layer works on its own copy; the caller's objects stay.  The machine is checked to
   serve every call (Options!Serves); its calls, by what the call before gave, are replayed on the real code. *)
EXTENDS Options, TLC, Json, FiniteSets
CONSTANTS Kinds, MaxFields
Given == {[o \in S |-> "given"] : S \in SUBSET Names}
Areas == {<<>>, <<"n", "w", "s", "e">>}
VARIABLES pc, call, caller, kw, jobs, left, last
vars == <<pc, call, caller, kw, jobs, left, last>>
None == [kind |-> "none", given |-> <<>>, grid |-> "", area |-> <<>>, n |-> 0]
Init == pc = "idle" /\ call = None /\ caller = None /\ kw = <<>> /\ jobs = <<>> /\ left = 0 /\ last = {}
Calls == {c \in [kind : Kinds, given : Given, grid : {"grid"}, area : Areas, n : 1..MaxFields] : c.kind \notin {"fieldlist", "dataset", "dataarray"} => c.n = 1}
Begin(c) == /\ pc = "idle" /\ pc' = "handler" /\ call' = c /\ caller' = c /\ jobs' = <<>> /\ left' = c.n
            /\ kw' = c.given /\ UNCHANGED last
\* the options of the engine are built anew for every field, from the copy of the handler
Backend == /\ pc = "handler" /\ left > 0 /\ left' = left - 1
           /\ jobs' = Append(jobs, [opts |-> [o \in {x \in Names : Tell(kw, x) # Unset} |-> Tell(kw, o)], grid |-> call.grid, area |-> call.area])
           /\ UNCHANGED <<pc, call, caller, kw, last>>
Return == pc = "handler" /\ left = 0 /\ pc' = "idle" /\ last' = DOMAIN kw /\ kw' = <<>> /\ UNCHANGED <<call, caller, jobs, left>>
Next == (\E c \in Calls : Begin(c)) \/ Backend \/ Return
Spec == Init /\ [][Next]_vars
Served == \A k \in 1..Len(jobs) : Serves(jobs[k], call)
Kept == caller = call
AllFields == (pc = "idle" /\ call # None) => Len(jobs) = call.n
State == [last |-> last]
Emit == (pc = "idle") => PrintT("@INIT " \o ToJson(State))
Edge == IF pc = "idle" THEN PrintT("@CALL " \o ToJson([s |-> last, kind |-> call'.kind, given |-> DOMAIN call'.given, area |-> call'.area # <<>>, n |-> call'.n])) ELSE TRUE
=============================================================================
