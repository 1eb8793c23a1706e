------------------------------ MODULE ConfigConc -----------------------------
(* How threads work on the configuration: one lock around each change, which is kept while the
   caches are told and while a rejected change is undone; reading needs no lock.  The changes
   of the fields take part in ConfigShared's actions when the lock is given back, hence the
   refinement: `abs`, the fields as they were when the lock was free, changes by actions of
   ConfigShared only.  The constants switch off one part of the protocol each.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Progs,
          Locked,      \* changes under the lock
          Own,         \* leaving removes one's own temporary configuration, not the innermost
          Whole,       \* a temporary configuration is added and told to the caches under one lock
          CopyLocked,  \* it is made under the lock
          NoGap,       \* a reset option is never absent
          Snapshot     \* a reader looks once at the temporary configurations
Opts == {"weights-memory-cache-policy", "maximum-weights-memory-cache-size", "url-download-timeout"}
S0 == INSTANCE ConfigShared WITH Options <- Opts, stack <- 0, env <- 0, file <- 0, auto <- 0, saved <- 0, ids <- 0

VARIABLES g,       \* stack and ids as the threads see them
          abs, lk, pc, prog, loc,
          used,    \* what the caches were told
          wrong    \* something that must not happen has happened
vars == <<g, abs, lk, pc, prog, loc, used, wrong>>
NoEnv == [o \in S0!AllOptions |-> ""]
A == INSTANCE ConfigShared WITH Options <- Opts, stack <- abs.stack, ids <- abs.ids, env <- NoEnv, file <- S0!Defaults, auto <- FALSE, saved <- S0!Defaults
U(v) == UNCHANGED v
None == 0
G0 == [stack |-> <<S0!Defaults>>, ids |-> <<>>]
L0 == [k |-> 0, undo |-> S0!Defaults, c |-> S0!Defaults, from |-> S0!Defaults, n |-> 0]
Init == /\ g = G0 /\ abs = G0 /\ lk = None /\ used = S0!Defaults /\ wrong = ""
        /\ prog \in [Procs -> Progs] /\ pc = [p \in Procs |-> "next"] /\ loc = [p \in Procs |-> L0]
Top(x) == x.stack[Len(x.stack)]
WithTop(x, c) == [x EXCEPT !.stack[Len(x.stack)] = c]
Op(p) == prog[p][1]
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Free == IF Locked THEN lk = None ELSE TRUE
Take(p) == IF Locked THEN lk = None /\ lk' = p ELSE U(lk)
Drop == IF Locked THEN lk' = None ELSE U(lk)
Next1(p) == /\ prog' = [prog EXCEPT ![p] = Tail(@)] /\ Go(p, "next")
\* after a temporary configuration was refused, its block is skipped
Skip(p) == LET x == prog[p] IN
           /\ prog' = [prog EXCEPT ![p] = LET e == CHOOSE k \in 1..Len(x) : x[k].o = "exit" /\ \A j \in 1..(k - 1) : x[j].o # "exit"
                                          IN SubSeq(x, e + 1, Len(x))]
           /\ Go(p, "next")
Bad(c) == S0!Refused(c, NoEnv)
Flag(b, why) == wrong' = IF b THEN wrong ELSE why

Begin(p) == /\ pc[p] = "next" /\ prog[p] # <<>>
            /\ Go(p, Op(p).o) /\ loc' = [loc EXCEPT ![p] = [L0 EXCEPT !.n = loc[p].n, !.k = 1]] /\ U(<<g, abs, lk, prog, used, wrong>>)
\* set
S1(p) == /\ pc[p] = "set" /\ Take(p) /\ loc' = [loc EXCEPT ![p].undo = Top(g)] /\ Go(p, "items") /\ U(<<g, abs, prog, used, wrong>>)
S2(p) == LET it == Op(p).items IN
         /\ pc[p] = "items" /\ loc[p].k <= Len(it)
         /\ IF S0!Valid(it[loc[p].k].o, it[loc[p].k].v)
            THEN /\ g' = WithTop(g, [Top(g) EXCEPT ![it[loc[p].k].o] = it[loc[p].k].v])
                 /\ loc' = [loc EXCEPT ![p].k = @ + 1] /\ U(<<pc, lk, prog, abs, wrong, used>>)
            ELSE /\ g' = WithTop(g, loc[p].undo) /\ used' = loc[p].undo /\ Drop /\ Next1(p) /\ U(<<loc, abs>>)
                 /\ Flag(~S0!ItemsOk(it), "refused a good change")
Tell(p) == LET it == Op(p).items IN
           IF Bad(Top(g)) THEN /\ g' = WithTop(g, loc[p].undo) /\ used' = loc[p].undo /\ Drop /\ Next1(p) /\ U(<<loc, abs>>)
                               /\ Flag(S0!Refused(S0!Apply(Top(abs), it), NoEnv), "refused a good change")
           ELSE used' = Top(g) /\ abs' = g /\ U(<<g, loc, wrong>>) /\ Drop /\ Next1(p)
S3(p) == pc[p] = "items" /\ loc[p].k > Len(Op(p).items) /\ Tell(p)
\* reset of one option: the same as setting its default, with a gap
R1(p) == LET o == Op(p).items[1].o IN
         /\ pc[p] = "reset" /\ Take(p) /\ loc' = [loc EXCEPT ![p].undo = Top(g)]
         /\ g' = WithTop(g, [Top(g) EXCEPT ![o] = IF NoGap THEN S0!Table[o].def ELSE "gone"])
         /\ Go(p, "reset2") /\ U(<<abs, prog, used, wrong>>)
R2(p) == LET o == Op(p).items[1].o IN
         /\ pc[p] = "reset2" /\ g' = WithTop(g, [Top(g) EXCEPT ![o] = S0!Table[o].def])
         /\ Go(p, "reset3") /\ U(<<lk, loc, abs, prog, used, wrong>>)
R3(p) == pc[p] = "reset3" /\ Tell(p)
\* get
Q1(p) == /\ pc[p] = "get"
         /\ IF Snapshot \/ g.ids = <<>> THEN Flag(Top(g)[Op(p).items[1].o] # "gone", "an option is absent") /\ Next1(p)
            ELSE Go(p, "get2") /\ U(<<wrong, prog>>)
         /\ U(<<g, abs, lk, loc, used>>)
Q2(p) == /\ pc[p] = "get2" /\ Flag(g.ids # <<>>, "no temporary configuration") /\ Next1(p) /\ U(<<g, abs, lk, loc, used>>)
\* a temporary configuration: made, added and the caches told
E1(p) == /\ pc[p] = "enter" /\ (IF CopyLocked THEN Free ELSE TRUE)
         /\ loc' = [loc EXCEPT ![p].c = S0!Apply(Top(g), Op(p).items), ![p].from = Top(abs)]
         /\ IF S0!ItemsOk(Op(p).items) THEN Go(p, "add") /\ U(prog) ELSE Skip(p)
         /\ U(<<g, abs, lk, used, wrong>>)
Id(p) == 10 * p + loc[p].n
E2(p) == /\ pc[p] = "add" /\ Take(p)
         /\ g' = [stack |-> Append(g.stack, loc[p].c), ids |-> Append(g.ids, 10 * p + loc[p].n + 1)]
         /\ loc' = [loc EXCEPT ![p].n = @ + 1] /\ Go(p, IF Whole THEN "tell" ELSE "added") /\ U(<<abs, prog, used, wrong>>)
E2b(p) == pc[p] = "added" /\ Drop /\ Go(p, "tell0") /\ U(<<g, abs, loc, prog, used, wrong>>)
E2c(p) == pc[p] = "tell0" /\ Take(p) /\ Go(p, "tell") /\ U(<<g, abs, loc, prog, used, wrong>>)
Where(p) == CHOOSE k \in 1..Len(g.ids) : g.ids[k] = Id(p)
Removed(p) == LET k == IF Own /\ \E j \in 1..Len(g.ids) : g.ids[j] = Id(p) THEN Where(p) ELSE Len(g.ids) IN
              [stack |-> S0!At(g.stack, k + 1), ids |-> S0!At(g.ids, k)]
E3(p) == /\ pc[p] = "tell"
         /\ IF Bad(Top(g)) THEN /\ g' = Removed(p) /\ used' = Top(g') /\ Drop /\ Skip(p) /\ U(abs)
                                /\ Flag(S0!Refused(S0!Apply(loc[p].from, Op(p).items), NoEnv), "refused a good temporary configuration")
            ELSE used' = Top(g) /\ abs' = g /\ Drop /\ Next1(p) /\ U(<<g, wrong>>)
         /\ U(loc)
X1(p) == /\ pc[p] = "exit" /\ Take(p) /\ g' = Removed(p) /\ Go(p, "exit2") /\ U(<<abs, loc, prog, used, wrong>>)
X2(p) == /\ pc[p] = "exit2" /\ used' = Top(g) /\ abs' = g /\ Drop /\ Next1(p) /\ U(<<g, loc, wrong>>)

Next == \E p \in Procs : Begin(p) \/ S1(p) \/ S2(p) \/ S3(p) \/ R1(p) \/ R2(p) \/ R3(p) \/ Q1(p) \/ Q2(p) \/ E1(p) \/ E2(p) \/ E2b(p) \/ E2c(p) \/ E3(p)
                           \/ X1(p) \/ X2(p)
Spec == Init /\ [][Next]_vars

Items == {prog[p][1].items : p \in {q \in Procs : prog[q] # <<>>}}
Refines == [][\/ \E it \in Items : it # <<>> /\ A!SSet(it)
              \/ \E o \in Opts : A!SReset(o)
              \/ \E p \in Procs : prog[p] # <<>> /\ A!SEnter(loc[p].from, Id(p), Op(p).items)
              \/ \E p \in Procs : A!SLeave(Id(p)) /\ pc[p] = "exit2"]_abs
\* when nobody is changing anything, the threads see what was agreed, and the caches work with it
InStep == (Locked /\ lk = None) => g = abs /\ used = Top(g)
Fine == wrong = ""
\* at the end no temporary configuration is left
Over == (\A p \in Procs : prog[p] = <<>>) => g.ids = <<>> /\ abs = g
=============================================================================
