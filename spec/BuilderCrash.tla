---------------------------- MODULE BuilderCrash ----------------------------
(* Adding weights to an inventory in steps between which the builder may die: read the index,
   write the weights, write the index.  A file is written either in place, where it is damaged
   until it is complete, or next to the existing one, which it then replaces (Atomic).
   Code 0: none; Part: not complete.                                                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Keys, Adds, Deaths, Atomic, WeightsFirst
VARIABLES index, files, whole, pc, k, seen, n, dead, made, open
vars == <<index, files, whole, pc, k, seen, n, dead, made, open>>
Part == -1
None == [x \in Keys |-> 0]
Init == /\ index = None /\ files = None /\ whole = TRUE /\ pc = "idle" /\ k = 0 /\ seen = None /\ n = 0 /\ dead = 0
        /\ made = None                          \* code of the last addition completed
        /\ open = [x \in Keys |-> {}]           \* codes of the additions interrupted since (or going on)

First(p) == IF WeightsFirst THEN p ELSE IF p = "weights" THEN "index" ELSE "weights"
Start(x) == /\ pc = "idle" /\ n < Adds
            /\ k' = x /\ n' = n + 1 /\ seen' = index /\ pc' = First("weights")
            /\ open' = [open EXCEPT ![x] = @ \cup {n'}]
            /\ UNCHANGED <<index, files, whole, dead, made>>
Weights == /\ pc = "weights"
           /\ pc' = "weights2" /\ files' = IF Atomic THEN files ELSE [files EXCEPT ![k] = Part]
           /\ UNCHANGED <<index, whole, k, seen, n, dead, made, open>>
Finished == made' = [made EXCEPT ![k] = n] /\ open' = [open EXCEPT ![k] = {}] /\ pc' = "idle"
Weights2 == /\ pc = "weights2" /\ files' = [files EXCEPT ![k] = n]
            /\ IF WeightsFirst THEN pc' = "index" /\ UNCHANGED <<made, open>> ELSE Finished
            /\ UNCHANGED <<index, whole, k, seen, n, dead>>
Index == /\ pc = "index" /\ pc' = "index2" /\ whole' = Atomic
         /\ UNCHANGED <<index, files, k, seen, n, dead, made, open>>
Index2 == /\ pc = "index2" /\ whole' = TRUE /\ index' = [seen EXCEPT ![k] = n]
          /\ IF WeightsFirst THEN Finished ELSE pc' = "weights" /\ UNCHANGED <<made, open>>
          /\ UNCHANGED <<files, k, seen, n, dead>>
Die == pc # "idle" /\ dead < Deaths /\ dead' = dead + 1 /\ pc' = "idle" /\ UNCHANGED <<index, files, whole, k, seen, n, made, open>>
Next == (\E x \in Keys : Start(x)) \/ Weights \/ Weights2 \/ Index \/ Index2 \/ Die
Spec == Init /\ [][Next]_vars

\* what others see at any moment
Usable == /\ whole
          /\ \A x \in Keys : index[x] # 0 => files[x] \in ({made[x]} \cup open[x]) \ {0, Part}
Kept == \A x \in Keys : made[x] # 0 => index[x] # 0
\* sizes are those of the weights unless the addition was interrupted
Recorded == \A x \in Keys : open[x] = {} => index[x] = files[x] /\ index[x] = made[x]
Others == [][\A x \in Keys : x # k' => files'[x] = files[x] /\ index'[x] = index[x]]_vars
=============================================================================
