------------------------------ MODULE Download ------------------------------
(* Downloaded files in the cache.

   srv[u]   what the server has for a URL: v (version), st ("ok" or what is wrong with GET),
            head (HEAD answered), tag (whether versions are told apart by entity tags)
   disk[u]  the cached file: v (0: none) and the tag that came with it ("" none)
   chk, dl  the options check-out-of-date-urls and download-out-of-date-urls               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [v |-> 0, tag |-> 0]
Unknown == 0 - 1   \* the process died before it could note the tag

\* the tag a HEAD request reveals (0: none)
Tag(s) == IF s.head /\ s.tag /\ s.st \in {"ok", "cut"} THEN s.v ELSE 0
Changed(d, s) == Tag(s) # 0 /\ d.tag # Unknown /\ Tag(s) # d.tag
Wanted(d, s, chk, dl, force, upd) ==
  \/ d.v = 0
  \/ force
  \/ chk /\ Changed(d, s) /\ (dl \/ upd)
Contact(d, chk, force) == d.v = 0 \/ force \/ chk   \* whether the server may be contacted at all

Get(d, s, chk, dl, force, upd) ==
  IF ~Wanted(d, s, chk, dl, force, upd) THEN [d |-> d, err |-> FALSE, got |-> d.v, down |-> FALSE]
  ELSE IF s.st # "ok" THEN [d |-> d, err |-> TRUE, got |-> 0, down |-> TRUE]
  ELSE [d |-> [v |-> s.v, tag |-> Tag(s)], err |-> FALSE, got |-> s.v, down |-> TRUE]
\* what is cached when the process dies while it gets a file
Died(d, s, chk, dl, force, upd) ==
  LET new == Get(d, s, chk, dl, force, upd).d IN
  {d, new, [v |-> d.v, tag |-> IF d.v = 0 THEN 0 ELSE Unknown]} \cup (IF new.v # 0 THEN {[new EXCEPT !.tag = Unknown]} ELSE {})
=============================================================================
