------------------------------ MODULE ConfigMC ------------------------------
(* Exhaustive exploration for some options and values; prints the graph. *)
EXTENDS Config, Json
CONSTANTS Vals,      \* option -> values given to set()/temporary() (with invalid ones)
          EnvVals,   \* option -> values of the environment
          MaxDepth, Pairs, Session
VARIABLES op
MCInit == Init /\ op = [op |-> "init"]
Item == UNION {{[o |-> o, v |-> v] : v \in Vals[o]} : o \in Options}
Lists == {<<x>> : x \in Item} \cup (IF Pairs THEN {<<x, y>> : x \in Item, y \in Item} \ {<<x, y>> \in {<<x, y>> : x \in Item, y \in Item} : x.o = y.o} ELSE {})
         \cup {<<[o |-> "no-such-option", v |-> "s:1"]>>}
Name(n, r) == op' = [op |-> n] @@ r
\* in the model, what is refused does not depend on the environment being changed underneath
Sane(s, e) == \A k \in 1..Len(s) : ~Refused(s[k], e)
MCNext ==
  \/ \E x \in Lists : (SetOk(x) \/ (SetBad(x) /\ ~ENABLED SetOk(x))) /\ Name("set", [items |-> x])
  \/ \E o \in Options \cup {"*", "no-such-option"} : (ResetOk(o) \/ (ResetBad(o) /\ ~ENABLED ResetOk(o))) /\ Name("reset", [o |-> o])
  \/ \E x \in Lists \cup {<<>>} : Len(stack) <= MaxDepth /\ (EnterOk(x) \/ (EnterBad(x) /\ ~ENABLED EnterOk(x))) /\ Name("enter", [items |-> x])
  \/ Exit /\ Name("exit", [how |-> "normal"])
  \/ Exit /\ Name("exit", [how |-> "raise"])
  \/ \E o \in DOMAIN EnvVals : \E v \in EnvVals[o] \cup {""} : v # env[o] /\ SetEnv(o, v) /\ Sane(stack, env') /\ Name("env", [o |-> o, v |-> v])
  \/ Session /\ \E b \in BOOLEAN : b # auto /\ Autosave(b) /\ Name("auto", [v |-> b])
  \/ Session /\ SaveAs /\ Name("saveas", [x |-> 0])
  \/ Session /\ Len(stack) = 1 /\ Restart /\ Sane(stack', env) /\ Name("restart", [from |-> "file"])
  \/ Session /\ Len(stack) = 1 /\ RestartSaved /\ Sane(stack', env) /\ Name("restart", [from |-> "saved"])
  \/ Session /\ Len(stack) = 1 /\ \E x \in Lists : ItemsOk(x) /\ ~Refused(Apply(Top(stack), x), env) /\ Crash(Apply(Top(stack), x)) /\ Name("crash", [items |-> x, kind |-> "set"])
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
S == [stack |-> [k \in 1..Len(stack) |-> [o \in Options |-> stack[k][o]]], env |-> [o \in DOMAIN EnvVals |-> env[o]], file |-> [o \in Options |-> file[o]],
      auto |-> auto, saved |-> [o \in Options |-> saved[o]]]
T == [stack |-> [k \in 1..Len(stack') |-> [o \in Options |-> stack'[k][o]]], env |-> [o \in DOMAIN EnvVals |-> env'[o]], file |-> [o \in Options |-> file'[o]],
      auto |-> auto', saved |-> [o \in Options |-> saved'[o]]]
View == S
Edge == PrintT("@EDGE " \o ToJson([s |-> S, op |-> op', t |-> T]))
First == op.op = "init" => PrintT("@INIT " \o ToJson(S))

\* the file always holds a configuration that is accepted
FileInv == \A o \in AllOptions : Valid(o, file[o])
StackInv == \A k \in 1..Len(stack) : /\ \A o \in AllOptions : Valid(o, stack[k][o])
                                     /\ ~Refused(stack[k], env)
\* leaving a temporary configuration restores the enclosing ones exactly; inner changes do not reach them
Isolation == [][Len(stack) > 1 /\ Len(stack') >= Len(stack) => \A k \in 1..(Len(stack) - 1) : stack'[k] = stack[k]]_<<vars, op>>
TempFile == [][Len(stack) > 1 => file' = file]_<<vars, op>>
Precedence == \A o \in AllOptions : Get(Top(stack), env, o) = (IF env[o] = "" THEN Read(o)[Top(stack)[o]] ELSE IF Valid(o, env[o]) THEN Read(o)[env[o]] ELSE "")
=============================================================================
