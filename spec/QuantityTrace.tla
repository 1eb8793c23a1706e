--------------------------- MODULE QuantityTrace ---------------------------
(* Observed readings of texts and other values by the options of the configuration. *)
EXTENDS Quantity, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l
tvars == <<i, l>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == i \in 1..Len(Traces) /\ l = 1

Got(r) == IF r.err = "" THEN [ok |-> TRUE, v |-> r.v] ELSE Error
\* a text read through the environment by options of the three kinds
ReadText(e) == \A r \in {e.r[k] : k \in 1..Len(e.r)} :
                  LET x == Parse(e.s, r.kind) IN Got(r) = x /\ (r.err \in {"", "ValueError"})
\* a value given to set(): accepted exactly if it can be read, else nothing changes
Accepts(e) == CASE e.py \in {"str", "int"} -> Parse(e.s, e.kind)
                [] e.py = "None" -> [ok |-> e.noneok, v |-> <<"None">>]
                [] OTHER -> Error
SetValue(e) == LET x == Accepts(e) IN
   IF x.ok THEN e.err = "" /\ e.after.err = "" /\ e.after.v = x.v
   ELSE e.err = "ValueError" /\ e.after = e.before /\ e.stored
Do(e) == CASE e.op = "read" -> ReadText(e) [] e.op = "set" -> SetValue(e)
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, expected |-> IF l <= Len(Traces[i].ev) /\ Traces[i].ev[l].op = "read"
                  THEN [k \in Kinds |-> Parse(Traces[i].ev[l].s, k)] ELSE <<>>]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
