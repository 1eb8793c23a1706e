------------------------------- MODULE Builder -------------------------------
(* Building inventories.  An inventory is a sequence of entries in the order they were first
   added: [i, o (grids), s (interpolation settings), code (of the weights)].  Entries are
   identified by grids and settings; adding one again replaces its weights in place.  A lookup
   by grids and method answers with the entry added first, so additions never change what is
   found under a previous entry.  A subset holds what lookups in the original find.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* settings: method and version of the engine
SettingsTable == << [m |-> "linear", v |-> 16], [m |-> "linear", v |-> 16], [m |-> "linear", v |-> 17],
                    [m |-> "nearest-neighbour", v |-> 16], [m |-> "grid-box-average", v |-> 16],
                    [m |-> "grid-box-average", v |-> 16], [m |-> "grid-box-average", v |-> 16],
                    [m |-> "nearest-neighbour", v |-> 16] >>
Method(s) == SettingsTable[s].m

Entry(i, o, s, code) == [i |-> i, o |-> o, s |-> s, code |-> code]
SameKey(x, y) == x.i = y.i /\ x.o = y.o /\ x.s = y.s
Range(q) == {q[k] : k \in DOMAIN q}

Added(inv, e) ==
  LET ks == {k \in DOMAIN inv : SameKey(inv[k], e)} IN
  IF ks = {} THEN Append(inv, e) ELSE [k \in DOMAIN inv |-> IF k \in ks THEN e ELSE inv[k]]

Candidates(inv, i, o, m) == {k \in DOMAIN inv : inv[k].i = i /\ inv[k].o = o /\ Method(inv[k].s) = m}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* what a lookup finds: a set of at most one entry
Found(inv, i, o, m) == LET c == Candidates(inv, i, o, m) IN IF c = {} THEN {} ELSE {inv[Min(c)]}
FoundCode(inv, i, o, m) == LET f == Found(inv, i, o, m) IN IF f = {} THEN 0 ELSE (CHOOSE x \in f : TRUE).code

Missing(inv, fs) == \E k \in DOMAIN fs : Found(inv, fs[k].i, fs[k].o, fs[k].m) = {}
RECURSIVE Subset(_, _)
Subset(inv, fs) ==
  IF fs = <<>> THEN <<>>
  ELSE LET rest == Subset(inv, SubSeq(fs, 1, Len(fs) - 1))
           f == Found(inv, fs[Len(fs)].i, fs[Len(fs)].o, fs[Len(fs)].m)
       IN IF f \subseteq Range(rest) THEN rest ELSE rest \o <<CHOOSE x \in f : TRUE>>

RECURSIVE Merged(_, _)
Merged(a, b) == IF b = <<>> THEN a ELSE Merged(Added(a, b[1]), Tail(b))
Disjoint(a, b) == \A x \in Range(a), y \in Range(b) : ~SameKey(x, y)

Keys(inv) == {[i |-> x.i, o |-> x.o, s |-> x.s] : x \in Range(inv)}
=============================================================================
