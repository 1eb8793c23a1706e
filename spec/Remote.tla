------------------------------- MODULE Remote -------------------------------
(* Inventories of weights on a server (or in a directory), as sessions use them.

   srv   what the server holds: gz = [v, st] the index, sha = [v, st] the checksum of an index,
         w = for every weights file whether it can be had.  st is "ok" or says what is wrong.
         Versions are published in any order; index and checksum may disagree for a while.
   disk  the cache shared by the sessions: idx (version of the cached index, 0 none), ws (weights),
         bad (those of these files that somebody damaged: "idx", weights files)
   ses   a session: mem (index in use, 0 none yet), checked (the checksum was consulted),
         mc (weights in memory: pairs and files), keep (whether it retains any)

   Lookup gives everything there is to say about a request for the weights of a pair of grids:
   the states afterwards, the outcome and the requests made to the server.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* what the versions of the index hold: pair -> weights file
Ents(v) == CASE v = 1 -> [a |-> "a1"]
             [] v = 2 -> [a |-> "a1", b |-> "b1"]
             [] v = 3 -> [a |-> "a2", c |-> "c1"]
             [] v = 4 -> [b |-> "b2", c |-> "c1", a |-> "a1"]
             [] OTHER -> [x \in {} |-> ""]
Versions == 1..4
Pairs == {"a", "b", "c"}
Files == {"a1", "a2", "b1", "b2", "c1"}
Holds(v, p) == p \in DOMAIN Ents(v)

NewSession(keep) == [mem |-> 0, checked |-> FALSE, mc |-> {}, keep |-> keep]
Good(x) == x.st = "ok"

\* sw: what the server holds after the checksum has been fetched
Lookup(disk, se, srv, sw, p) ==
  LET hit   == {x \in se.mc : x[1] = p}
      \* an index to start with
      gz1   == se.mem = 0 /\ disk.idx = 0
      ok1   == IF gz1 THEN Good(srv.gz) ELSE se.mem # 0 \/ "idx" \notin disk.bad
      idx1  == IF gz1 THEN srv.gz.v ELSE disk.idx
      mem1  == IF se.mem = 0 THEN idx1 ELSE se.mem
      \* no match: is it the latest?
      chk   == ok1 /\ ~Holds(mem1, p) /\ ~se.checked
      sha   == chk /\ idx1 # 0
      oksha == sha => Good(srv.sha)
      srv2  == IF sha THEN sw ELSE srv
      gz2   == chk /\ (IF sha THEN oksha /\ srv.sha.v # idx1 ELSE TRUE)
      \* a damaged index is of no use, and stays so for as long as it is the right one
      ok2   == oksha /\ (IF gz2 THEN Good(srv2.gz) ELSE chk => "idx" \notin disk.bad)
      bad2  == IF gz1 \/ (gz2 /\ ok2) THEN disk.bad \ {"idx"} ELSE disk.bad
      idx2  == IF gz2 /\ ok2 THEN srv2.gz.v ELSE idx1
      mem2  == IF chk /\ ok2 THEN idx2 ELSE mem1
      se2   == [se EXCEPT !.mem = mem2, !.checked = @ \/ (chk /\ ok2)]
      found == Holds(mem2, p)
      w     == Ents(mem2)[p]
      getw  == w \notin disk.ws
      okw   == IF getw THEN srv2.w[w] = "ok" ELSE w \notin disk.bad
      reqs  == [gz |-> (IF gz1 THEN 1 ELSE 0) + (IF gz2 THEN 1 ELSE 0), sha |-> IF sha THEN 1 ELSE 0]
      R(d, s, err, got, ws) == [disk |-> d, se |-> s, err |-> err, got |-> got, gz |-> reqs.gz, sha |-> reqs.sha, w |-> ws, switched |-> sha]
      d1    == [disk EXCEPT !.idx = idx1, !.bad = IF gz1 THEN @ \ {"idx"} ELSE @]
      d2    == [disk EXCEPT !.idx = idx2, !.bad = bad2]
  IN IF hit # {} THEN [disk |-> disk, se |-> se, err |-> "", got |-> (CHOOSE x \in hit : TRUE)[2], gz |-> 0, sha |-> 0, w |-> <<>>, switched |-> FALSE]
     ELSE IF ~ok1 THEN R(disk, se, "fail", "", <<>>)
     ELSE IF ~ok2 THEN R(d1, [se EXCEPT !.mem = mem1], "fail", "", <<>>)
     ELSE IF ~found THEN R(d2, se2, "nomatch", "", <<>>)
     ELSE IF ~okw THEN R(d2, se2, "fail", "", IF getw THEN <<w>> ELSE <<>>)
     ELSE R([d2 EXCEPT !.ws = @ \cup {w}], IF se.keep THEN [se2 EXCEPT !.mc = @ \cup {<<p, w>>}] ELSE se2, "", w, IF getw THEN <<w>> ELSE <<>>)

NoDisk == [idx |-> 0, ws |-> {}, bad |-> {}]
LoseIndex(d) == [d EXCEPT !.idx = 0, !.bad = @ \ {"idx"}]
LoseWeights(d, w) == [d EXCEPT !.ws = @ \ {w}, !.bad = @ \ {w}]

\* an inventory in a directory: srv.gz is the index there; it is read again whenever there is no match
LocalLookup(se, srv, p) ==
  LET hit  == {x \in se.mc : x[1] = p}
      first == se.mem = 0
      ok1  == first => Good(srv.gz)
      mem1 == IF first THEN srv.gz.v ELSE se.mem
      again == ok1 /\ ~Holds(mem1, p)
      ok2  == again => Good(srv.gz)
      mem2 == IF again THEN srv.gz.v ELSE mem1
      se2  == [se EXCEPT !.mem = mem2]
      w    == Ents(mem2)[p]
      R(s, err, got) == [se |-> s, err |-> err, got |-> got]
  IN IF hit # {} THEN R(se, "", (CHOOSE x \in hit : TRUE)[2])
     ELSE IF ~ok1 THEN R(se, "fail", "")
     ELSE IF ~ok2 THEN R([se EXCEPT !.mem = mem1], "fail", "")
     ELSE IF ~Holds(mem2, p) THEN R(se2, "nomatch", "")
     ELSE IF srv.w[w] # "ok" THEN R(se2, "fail", "")
     ELSE R(IF se.keep THEN [se2 EXCEPT !.mc = @ \cup {<<p, w>>}] ELSE se2, "", w)
=============================================================================
