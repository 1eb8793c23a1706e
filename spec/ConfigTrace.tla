----------------------------- MODULE ConfigTrace -----------------------------
(* Observed histories of the configuration.  After every step the driver gets all options
   (e.get: value or "" for a ValueError), and looks at what the caches work with (e.mem,
   e.disk).  Enforce: the properties whose specific clauses are checked.                   *)
EXTENDS Config, Json
CONSTANTS Enforce
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES i, l, used      \* used: what the caches work with
tvars == <<vars, i, l, used>>
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
On(p) == p \in Enforce
TInit == Init /\ i \in 1..Len(Traces) /\ l = 1 /\ used = TLCEval(Gets(Defaults, env))

\* what the caches show for settings g
Near(e, g) ==
  /\ e.mem.pol = g["weights-memory-cache-policy"]
  /\ Limited(e.mem.pol) => /\ e.mem.max = g["maximum-weights-memory-cache-size"]
                           \* a lookup of weights of 1500 bytes
                           /\ e.mem.refused = (g["weights-memory-cache-strict-mode"] = "True" /\ g["maximum-weights-memory-cache-size"] \in {"1024", "1400"})
  /\ ~Limited(e.mem.pol) => ~e.mem.refused
  /\ e.disk.pol = g["cache-policy"]
  /\ CASE e.disk.pol = "user" -> e.disk.dir = g["user-cache-directory"]
       [] e.disk.pol = "temporary" -> e.disk.parent = (IF g["temporary-cache-directory-root"] = "None" THEN "TMP" ELSE g["temporary-cache-directory-root"])
       [] e.disk.pol = "off" -> e.disk.parent = (IF g["temporary-directory-root"] = "None" THEN "TMP" ELSE g["temporary-directory-root"])
  \* four files of 400 bytes have been added, if any
  /\ e.disk.left >= 0 => e.disk.left = (IF e.disk.pol = "off" THEN 4
        ELSE CASE g["maximum-cache-size"] = "0" -> 1 [] g["maximum-cache-size"] = "1024" -> 2 [] g["maximum-cache-size"] = "1400" -> 3 [] OTHER -> 4)

Cleared(g) == g # used
Obs(e) == /\ \A o \in AllOptions : e.get[o] = Get(Top(stack'), env', o)
          /\ e.unknown = "KeyError"
Used(e) == IF On("C07") THEN Near(e, used') ELSE TRUE
Now == TLCEval(Gets(Top(stack'), env'))
Good(e) == e.err = "" /\ used' = Now
Bad(e) == e.err # "" /\ used' \in {used, Now}
\* an environment variable hid what the caches cannot use, and is gone when its temporary configuration is left:
\* each cache goes on as it was or tells
DiskOptions == {"cache-policy", "user-cache-directory", "temporary-cache-directory-root", "maximum-cache-size", "maximum-cache-disk-usage"}
Mixed(a, b) == [o \in DOMAIN a |-> IF o \in DiskOptions THEN a[o] ELSE b[o]]
Same(e) == On("C07") \/ On("C08") => ~e.fchg

\* without C07, part of a rejected change may stay
Partial(items) == /\ ~On("C07")
                  /\ \E k \in 1..Len(items) : Change(Apply(Top(stack), SubSeq(items, 1, k)))
Warned(e) == On("C06") => (e.warned = (\E k \in 1..Len(e.items) : env[e.items[k].o] # ""))

Set(e) == \/ SetOk(e.items) /\ Good(e) /\ Warned(e) /\ (Len(stack) > 1 \/ ~auto => Same(e))
          \/ SetBad(e.items) /\ Bad(e) /\ Same(e) /\ (Unknown(e.items) /\ Len(e.items) = 1 => e.err = "KeyError")
          \/ e.err # "" /\ Partial(e.items) /\ Bad(e)
Reset(e) == \/ ResetOk(e.o) /\ Good(e) /\ (Len(stack) > 1 \/ ~auto => Same(e))
            \/ ResetBad(e.o) /\ Bad(e) /\ Same(e) /\ (e.o \notin AllOptions \cup {"*"} => e.err = "KeyError")
            \/ ~On("C07") /\ e.err # "" /\ e.o \in AllOptions \cup {"*"} /\ Change(ResetTo(e.o)) /\ Bad(e)
Enter(e) == \/ EnterOk(e.items) /\ Good(e) /\ Same(e)
            \/ EnterBad(e.items) /\ Bad(e) /\ Same(e) /\ (Unknown(e.items) /\ Len(e.items) = 1 => e.err = "KeyError")
Target(e) == IF e.kind = "reset" THEN ResetTo(e.o) ELSE Apply(Top(stack), e.items)

Do(e) ==
  CASE e.op = "set" -> Set(e)
    [] e.op = "reset" -> Reset(e)
    [] e.op = "enter" -> Enter(e)
    [] e.op = "exit" -> Exit /\ Same(e) /\ (IF Refused(Top(stack'), env) THEN used' \in {used, Now, Mixed(used, Now), Mixed(Now, used)} ELSE Good(e))
    [] e.op = "env" -> SetEnv(e.o, e.v) /\ UNCHANGED used /\ Same(e)
    [] e.op = "auto" -> Autosave(e.v) /\ UNCHANGED used /\ Same(e)
    [] e.op = "saveas" -> SaveAs /\ UNCHANGED used /\ Same(e)
    [] e.op = "restart" -> (IF e.from = "saved" THEN RestartSaved ELSE Restart) /\ used' = Now
    [] e.op = "edit" -> Edit(e.items) /\ UNCHANGED used
    [] e.op = "crash" -> (IF e.done THEN NewSession(IF auto THEN Target(e) ELSE file) ELSE Crash(Target(e))) /\ used' = Now

TNext == /\ l <= Len(Traces[i].ev)
         /\ LET e == Traces[i].ev[l] IN Do(e) /\ Obs(e) /\ Used(e)
         /\ l' = l + 1 /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_tvars
Track == IF l > TLCGet(i) THEN TLCSet(i, l) ELSE TRUE
Show == PrintT("@STATE " \o ToJson([l |-> l, stack |-> stack, env |-> env, file |-> file, auto |-> auto, used |-> used]))
Report == /\ \A k \in 1..Len(Traces) : TLCGet(k) = Len(Traces[k].ev) + 1
                \/ PrintT("@REJECT " \o ToJson([i |-> k, l |-> TLCGet(k)]))
          /\ PrintT("@DONE " \o ToJson(Len(Traces)))
=============================================================================
