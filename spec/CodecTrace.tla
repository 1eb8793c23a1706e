----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, paths
tvars == <<i, l, paths>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TInit == i \in 1..Len(Traces) /\ l = 1 /\ paths = [x \in {} |-> 0]

\* a weights file with the given tags (one more for each end-of-object mark), of which only the
\* first `cut` bytes are there
Whole(e) == e.cut = -1 \/ e.cut >= FileSize(e.f, e.ssz, 1) + (Len(e.tags) - 10)
Good(e) == Whole(e) /\ Len(e.tags) >= 10 /\ Reads(e.tags, Expected) = "ok" /\ e.ssz \in Scalars
Weights(e) == IF Good(e) THEN /\ e.err = "" /\ [rows |-> e.rows, cols |-> e.cols, trip |-> e.trip] = Decode(e.f)
                         ELSE e.err # ""
Griddef(e) == /\ e.err = "" /\ e.rest = 0
              /\ e.items = <<<<TagULong, 1>>, <<TagULong, Len(e.lats)>>>>
              /\ e.coords = [k \in 1..(2 * Len(e.lats)) |-> <<TagDouble, IF k % 2 = 1 THEN e.lats[(k + 1) \div 2] ELSE e.lons[k \div 2]>>]
\* every set of coordinates has a file of its own
Named(e) == LET key == <<e.lats, e.lons>> IN
  /\ key \in DOMAIN paths => paths[key] = e.path
  /\ \A q \in DOMAIN paths : q # key => paths[q] # e.path
  /\ paths' = (key :> e.path) @@ paths
\* weights between nodes of a grid: the nearest neighbour of a node is the node
Engine(e) == e.err = "" /\ e.rows = Len(e.nodes) /\ e.cols = e.ncols
             /\ e.trip = [k \in 1..Len(e.nodes) |-> <<k - 1, e.nodes[k], "0x1.0000000000000p+0">>]
Do(e) == CASE e.op = "weights" -> Weights(e) /\ UNCHANGED paths
           [] e.op = "griddef" -> Griddef(e) /\ UNCHANGED paths
           [] e.op = "badgriddef" -> e.err = "ValueError" /\ UNCHANGED paths
           [] e.op = "named" -> Griddef(e) /\ Named(e)
           [] e.op = "engine" -> Engine(e) /\ UNCHANGED paths
TNext == l <= Len(Traces[i].ev) /\ Do(Traces[i].ev[l]) /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
