---------------------------- MODULE MemCacheConc ----------------------------
(* How concurrent calls work on the memory cache: a lock around each lookup (which is kept
   while the weights are read), one around configuration changes, and a look at the policy
   before the lock.  The fields only take part in MemCache's actions when the lock is given
   back, hence the refinement: `abs`, the fields as they were when the lock was free, changes
   by actions of MemCache only.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Ops, Locked      \* Locked: FALSE for the variant without the lock while reading
CONSTANTS Keys, Size, Est, Limits
M == INSTANCE MemCache WITH Enforce <- {"victims", "strict", "reuse"}, pol <- 0, lim <- 0, strict <- 0, items <- 0, hits <- 0, misses <- 0

VARIABLES f,      \* the fields: pol, lim, strict, items, hits, misses
          abs, lk, clk, cfg, pc, op, loc, reads
vars == <<f, abs, lk, clk, cfg, pc, op, loc, reads>>
A == INSTANCE MemCache WITH Enforce <- {"victims", "strict", "reuse"}, pol <- abs.pol, lim <- abs.lim, strict <- abs.strict,
                            items <- abs.items, hits <- abs.hits, misses <- abs.misses
None == 0
F0 == [pol |-> "largest", lim |-> CHOOSE x \in Limits : \A y \in Limits : y <= x, strict |-> FALSE, items |-> <<>>, hits |-> 0, misses |-> 0]
Init == /\ f = F0 /\ abs = F0 /\ lk = None /\ clk = None
        /\ cfg = [pol |-> F0.pol, lim |-> F0.lim, strict |-> F0.strict]
        /\ op \in [Procs -> Ops] /\ pc = [p \in Procs |-> "start"] /\ loc = [p \in Procs |-> cfg]
        /\ reads = [k \in Keys |-> 0]     \* how often each key was read since it was last absent

Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Take(p) == lk = None /\ lk' = p
Drop(p, g) == lk' = None /\ f' = g /\ abs' = g
U(v) == UNCHANGED v

\* get(k)
G1(p) == /\ pc[p] = "start" /\ op[p].o = "get"
         /\ Go(p, IF f.pol = "off" THEN "done" ELSE "glock") /\ U(<<f, abs, lk, clk, cfg, op, loc, reads>>)
G2(p) == /\ pc[p] = "glock" /\ Take(p) /\ Go(p, "glook") /\ U(<<f, abs, clk, cfg, op, loc, reads>>)
G3(p) == LET k == op[p].k IN
         /\ pc[p] = "glook"
         /\ IF f.pol = "off" THEN Drop(p, f) /\ Go(p, "done")
            ELSE IF k \in M!Kept(f.items)
            THEN Drop(p, [f EXCEPT !.items = Append(M!Without(@, k), k), !.hits = @ + 1]) /\ Go(p, "done")
            ELSE IF M!Limited(f.pol) /\ f.strict /\ Est[k] > f.lim THEN Drop(p, f) /\ Go(p, "done")
            ELSE /\ \E q \in IF M!Limited(f.pol) /\ Est[k] <= f.lim /\ Est[k] > f.lim - M!Total(f.items)
                             THEN M!Reduced(f.pol, f.items, f.lim - Est[k]) ELSE {f.items} : f' = [f EXCEPT !.items = q]
                 /\ Go(p, "gread") /\ lk' = (IF Locked THEN lk ELSE None) /\ U(abs)
         /\ U(<<clk, cfg, op, loc, reads>>)
G4(p) == LET k == op[p].k IN
         /\ pc[p] = "gread"
         /\ Locked \/ lk = None
         /\ \E ok \in {TRUE, FALSE} :
              LET g == [f EXCEPT !.misses = IF ok THEN @ + 1 ELSE @] IN
              IF ~ok THEN Drop(p, g) /\ U(reads)
              ELSE /\ \E q \in IF M!Limited(f.pol)
                               THEN IF Size[k] > f.lim THEN {f.items} ELSE M!Reduced(f.pol, Append(f.items, k), f.lim)
                               ELSE {Append(f.items, k)} : Drop(p, [g EXCEPT !.items = q])
                   /\ reads' = [j \in Keys |-> IF j = k THEN reads[k] + 1 ELSE reads[j]]
         /\ Go(p, "done") /\ U(<<clk, cfg, op, loc>>)
\* clear
C1(p) == /\ pc[p] = "start" /\ op[p].o = "clear" /\ lk = None
         /\ f' = [f EXCEPT !.items = <<>>, !.hits = 0, !.misses = 0] /\ abs' = f' /\ Go(p, "done")
         /\ U(<<lk, clk, cfg, op, loc, reads>>)
\* set: option by option, then the cache is told, and everything is undone when it refuses
S1(p) == /\ pc[p] = "start" /\ op[p].o = "set" /\ clk = None /\ clk' = p /\ loc' = [loc EXCEPT ![p] = cfg]
         /\ Go(p, "spol") /\ U(<<f, abs, lk, cfg, op, reads>>)
S2(p) == \/ pc[p] = "spol" /\ cfg' = [cfg EXCEPT !.pol = op[p].p] /\ Go(p, "slim") /\ U(<<f, abs, lk, clk, op, loc, reads>>)
         \/ pc[p] = "slim" /\ cfg' = [cfg EXCEPT !.lim = op[p].l] /\ Go(p, "sstrict") /\ U(<<f, abs, lk, clk, op, loc, reads>>)
         \/ pc[p] = "sstrict" /\ cfg' = [cfg EXCEPT !.strict = op[p].s] /\ Go(p, "stell") /\ U(<<f, abs, lk, clk, op, loc, reads>>)
S3(p) == /\ pc[p] \in {"stell", "sundo"} /\ Take(p) /\ Go(p, IF pc[p] = "stell" THEN "sapply" ELSE "sapply2")
         /\ U(<<f, abs, clk, cfg, op, loc, reads>>)
S4(p) == /\ pc[p] \in {"sapply", "sapply2"}
         /\ LET same == f.pol = cfg.pol /\ f.strict = cfg.strict /\ (cfg.pol \in {"off", "unlimited"} \/ f.lim = cfg.lim)
                bad == cfg.lim = 0 /\ M!Limited(cfg.pol)
                g == [f EXCEPT !.pol = cfg.pol, !.lim = cfg.lim, !.strict = cfg.strict] IN
            IF bad THEN Drop(p, f) /\ cfg' = loc[p] /\ Go(p, "sundo")
            ELSE /\ \/ same /\ Drop(p, [f EXCEPT !.lim = cfg.lim])
                    \/ ~same /\ cfg.pol = "off" /\ Drop(p, [g EXCEPT !.items = <<>>, !.hits = 0, !.misses = 0])
                    \/ ~same /\ cfg.pol = "unlimited" /\ Drop(p, g)
                    \/ ~same /\ M!Limited(cfg.pol) /\ \E q \in M!Reduced(cfg.pol, f.items, cfg.lim) : Drop(p, [g EXCEPT !.items = q])
                 /\ U(cfg) /\ Go(p, "sfree")
         /\ U(<<clk, op, loc, reads>>)
S5(p) == /\ pc[p] = "sfree" /\ clk' = None /\ Go(p, "done") /\ U(<<f, abs, lk, cfg, op, loc, reads>>)

Done == (\A p \in Procs : pc[p] = "done") /\ U(vars)
Step(p) == G1(p) \/ G2(p) \/ G3(p) \/ G4(p) \/ C1(p) \/ S1(p) \/ S2(p) \/ S3(p) \/ S4(p) \/ S5(p)
Next == (\E p \in Procs : Step(p)) \/ Done
Spec == Init /\ [][Next]_vars

\* refinement of the sequential cache
AbsNext == \/ \E k \in Keys : A!Hit(k) \/ A!Load(k) \/ A!Refuse(k) \/ A!Fail(k)
           \/ A!Clear
           \/ \E p \in A!Policies, l \in Limits \cup {0}, s \in BOOLEAN : A!Configure(p, l, s)
Refines == [][AbsNext]_abs
\* only one at a time reads the same weights, and what is retained fits
ReadOnce == \A p, q \in Procs : p # q /\ pc[p] = "gread" /\ pc[q] = "gread" => op[p].k # op[q].k
Fits == M!Limited(abs.pol) => M!Total(abs.items) <= abs.lim
InStep == (clk = None /\ lk = None) => f.pol = cfg.pol /\ f.strict = cfg.strict /\ f.lim = cfg.lim
NoDup == Cardinality(M!Kept(abs.items)) = Len(abs.items)
\* a call without effect on the fields while another one holds the lock
OwnerOnly == [][f' # f => \E p \in Procs : (lk = p \/ lk' = p \/ lk = None)]_vars
=============================================================================
