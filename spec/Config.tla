------------------------------- MODULE Config -------------------------------
(* The configuration: defaults, the main configuration and its file, a stack of temporary
   configurations, the environment, and the settings the two caches work with.

   Values are tokens: "s:" text, "i:" integer, "b:" boolean, "n:" None; ROOT stands for the
   scratch directory.  Read(o)[v] is what get(o) returns for the stored token v; tokens
   without a reading are invalid.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Options      \* options in use (names)

Bool == ("b:True" :> "True") @@ ("b:False" :> "False") @@ ("s:yes" :> "True") @@ ("s:off" :> "False") @@ ("i:1" :> "True") @@ ("i:0" :> "False")
        @@ ("s:TRUE" :> "True") @@ ("s:False" :> "False") @@ ("s:0" :> "False") @@ ("s:1" :> "True") @@ ("s:no" :> "False") @@ ("s:on" :> "True") @@ ("s:" :> "False")
Size == ("s:5GB" :> "5368709120") @@ ("s:500MB" :> "524288000") @@ ("s:1K" :> "1024") @@ ("i:2048" :> "2048") @@ ("s:3 k" :> "3072")
        @@ ("n:" :> "None") @@ ("s:2000000" :> "2000000") @@ ("i:1400" :> "1400") @@ ("s:1T" :> "1099511627776") @@ ("i:0" :> "0")
Percent == ("n:" :> "None") @@ ("s:100%" :> "100") @@ ("i:100" :> "100") @@ ("s:101" :> "101")
Seconds == ("s:30s" :> "30") @@ ("s:1m" :> "60") @@ ("i:10" :> "10") @@ ("s:2h" :> "7200") @@ ("s:45" :> "45")
Dir == ("s:ROOT/home/.cache/earthkit-regrid" :> "ROOT/home/.cache/earthkit-regrid") @@ ("s:ROOT/d1" :> "ROOT/d1") @@ ("s:ROOT/d2/x" :> "ROOT/d2/x")
        @@ ("s:ROOT/d 3: #y" :> "ROOT/d 3: #y") @@ ("s:ROOT/FILE/z" :> "ROOT/FILE/z")
Root == ("n:" :> "None") @@ ("s:ROOT/t1" :> "ROOT/t1") @@ ("s:ROOT/t2/x" :> "ROOT/t2/x") @@ ("s:ROOT/FILE/z" :> "ROOT/FILE/z")
DiskPolicy == ("s:user" :> "user") @@ ("s:temporary" :> "temporary") @@ ("s:off" :> "off")
MemPolicy == ("s:largest" :> "largest") @@ ("s:lru" :> "lru") @@ ("s:unlimited" :> "unlimited") @@ ("s:off" :> "off")

Table == ("user-cache-directory" :> [def |-> "s:ROOT/home/.cache/earthkit-regrid", read |-> Dir])
      @@ ("temporary-cache-directory-root" :> [def |-> "n:", read |-> Root])
      @@ ("temporary-directory-root" :> [def |-> "n:", read |-> Root])
      @@ ("cache-policy" :> [def |-> "s:user", read |-> DiskPolicy])
      @@ ("maximum-cache-size" :> [def |-> "s:5GB", read |-> Size])
      @@ ("maximum-cache-disk-usage" :> [def |-> "n:", read |-> Percent])
      @@ ("url-download-timeout" :> [def |-> "s:30s", read |-> Seconds])
      @@ ("check-out-of-date-urls" :> [def |-> "b:False", read |-> Bool])
      @@ ("download-out-of-date-urls" :> [def |-> "b:False", read |-> Bool])
      @@ ("maximum-weights-memory-cache-size" :> [def |-> "s:500MB", read |-> Size])
      @@ ("weights-memory-cache-policy" :> [def |-> "s:largest", read |-> MemPolicy])
      @@ ("weights-memory-cache-strict-mode" :> [def |-> "b:False", read |-> Bool])
AllOptions == DOMAIN Table
Read(o) == Table[o].read
Valid(o, v) == o \in AllOptions /\ v \in DOMAIN Read(o)
Defaults == [o \in AllOptions |-> Table[o].def]

VARIABLES stack,      \* <<main configuration, temporary ones ...>>
          env,        \* option -> token, "" if not set
          file,       \* the main configuration a new session will start with
          auto,       \* autosave
          saved       \* what save_as() has written
vars == <<stack, env, file, auto, saved>>

Top(s) == s[Len(s)]
\* what get(o) gives with configuration c: "" stands for a ValueError
Get(c, e, o) == LET v == IF e[o] # "" THEN e[o] ELSE c[o] IN IF Valid(o, v) THEN Read(o)[v] ELSE ""
Gets(c, e) == [o \in AllOptions |-> Get(c, e, o)]
Limited(p) == p \in {"largest", "lru"}
\* the caches refuse: a limited weights cache without a limit, directories that cannot be made
Refused(c, e) ==
  \/ Limited(Get(c, e, "weights-memory-cache-policy")) /\ Get(c, e, "maximum-weights-memory-cache-size") \in {"None", "0"}
  \/ Get(c, e, "cache-policy") \in {"user"} /\ Get(c, e, "user-cache-directory") = "ROOT/FILE/z"
  \/ Get(c, e, "cache-policy") \in {"temporary"} /\ Get(c, e, "temporary-cache-directory-root") = "ROOT/FILE/z"

Init == /\ stack = <<Defaults>> /\ env = [o \in AllOptions |-> ""] /\ file = Defaults /\ auto = TRUE /\ saved = Defaults

\* items: a sequence of [o, v]
RECURSIVE Apply(_, _)
Apply(c, items) == IF items = <<>> THEN c
                   ELSE Apply(IF items[1].o \in AllOptions THEN [c EXCEPT ![items[1].o] = items[1].v] ELSE c, SubSeq(items, 2, Len(items)))
ItemsOk(items) == \A k \in 1..Len(items) : Valid(items[k].o, items[k].v)
Unknown(items) == \E k \in 1..Len(items) : items[k].o \notin AllOptions

\* a change of the innermost configuration to c
Change(c) == /\ stack' = [stack EXCEPT ![Len(stack)] = c]
             /\ file' = IF auto /\ Len(stack) = 1 THEN c ELSE file
             /\ UNCHANGED <<env, auto, saved>>
SetOk(items) == /\ ItemsOk(items) /\ items # <<>>
                /\ ~Refused(Apply(Top(stack), items), env)
                /\ Change(Apply(Top(stack), items))
\* a rejected change has no effect
Reject == UNCHANGED vars
SetBad(items) == /\ ~ItemsOk(items) \/ items = <<>> \/ Refused(Apply(Top(stack), items), env)
                 /\ Reject
ResetTo(o) == IF o = "*" THEN Defaults ELSE [Top(stack) EXCEPT ![o] = Table[o].def]
ResetOk(o) == /\ o \in AllOptions \cup {"*"} /\ ~Refused(ResetTo(o), env) /\ Change(ResetTo(o))
ResetBad(o) == (o \notin AllOptions \cup {"*"} \/ Refused(ResetTo(o), env)) /\ Reject
EnterOk(items) == /\ ItemsOk(items) /\ ~Refused(Apply(Top(stack), items), env)
                  /\ stack' = Append(stack, Apply(Top(stack), items)) /\ UNCHANGED <<env, file, auto, saved>>
EnterBad(items) == (~ItemsOk(items) \/ Refused(Apply(Top(stack), items), env)) /\ Reject
Exit == Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<env, file, auto, saved>>
SetEnv(o, v) == env' = [env EXCEPT ![o] = v] /\ UNCHANGED <<stack, file, auto, saved>>
Autosave(b) == auto' = b /\ UNCHANGED <<stack, env, file, saved>>
SaveAs == saved' = Top(stack) /\ UNCHANGED <<stack, env, file, auto>>
\* a new session, with the main file, or with the one written by save_as
NewSession(f) == file' = f /\ stack' = <<f>> /\ auto' = TRUE /\ UNCHANGED <<env, saved>>
Restart == NewSession(file)
RestartSaved == NewSession(saved)
\* the user edits the file by hand: options that are not in it have their defaults
Edit(items) == ItemsOk(items) /\ file' = Apply(Defaults, items) /\ UNCHANGED <<stack, env, auto, saved>>
\* the process dies while the main configuration is being changed to c
Crash(c) == Len(stack) = 1 /\ (NewSession(file) \/ (auto /\ NewSession(c)))
=============================================================================
