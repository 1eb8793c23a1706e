----------------------------- MODULE ConfigShared ----------------------------
(* The configuration used by several threads: the actions of Config, and temporary
   configurations which need not be left in the opposite order of their making.  A temporary
   configuration is a copy of what is current when it is made.                           *)
EXTENDS Config
VARIABLE ids      \* the identities of the temporary configurations, innermost last
svars == <<vars, ids>>
SInit == Init /\ ids = <<>>
At(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
SSet(items) == SetOk(items) /\ UNCHANGED ids
SReset(o) == ResetOk(o) /\ UNCHANGED ids
SBad(items) == SetBad(items) /\ UNCHANGED ids
SResetBad(o) == ResetBad(o) /\ UNCHANGED ids
\* c: what was current when it was made
SEnter(c, id, items) == /\ ItemsOk(items) /\ ~Refused(Apply(c, items), env)
                        /\ stack' = Append(stack, Apply(c, items)) /\ ids' = Append(ids, id)
                        /\ UNCHANGED <<env, file, auto, saved>>
SEnterBad(c, items) == (~ItemsOk(items) \/ Refused(Apply(c, items), env)) /\ UNCHANGED svars
SLeave(id) == \E k \in 1..Len(ids) : /\ ids[k] = id /\ ids' = At(ids, k) /\ stack' = At(stack, k + 1)
                                     /\ UNCHANGED <<env, file, auto, saved>>
SNext == \/ \E o \in Options : \E v \in DOMAIN Read(o) : SSet(<<[o |-> o, v |-> v]>>)
         \/ \E o \in Options : SReset(o)
         \/ \E k \in 1..Len(stack) : \E id \in 1..3 : id \notin {ids[j] : j \in DOMAIN ids} /\ SEnter(stack[k], id, <<>>)
         \/ \E j \in DOMAIN ids : SLeave(ids[j])
\* as many identities as temporary configurations; without any the main one is current
Paired == Len(stack) = Len(ids) + 1
=============================================================================
