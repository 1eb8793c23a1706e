------------------------------ MODULE Inventory ------------------------------
(* What an inventory of weights holds, and what regridding with it must give.

   An inventory is [version, entries]; an entry is a record
     c       what kind of entry it is (see Usable)
     i, o    numbers of the input and output grids
     m       interpolation method
     code    identifies its weights
     shape   shape of the output
     mem     memory size recorded (0: none)
   How grids and methods are spelled by the caller must not matter.                       *)
EXTENDS Integers, Sequences, FiniteSets

SupportedVersion == 1

\* entries of an unknown kind are skipped: unknown grid types, unknown interpolation
\* methods, missing parts, or not even an entry
UsableKinds == {"ok", "methoddict"}
Usable(e) == e.c \in UsableKinds

Alias(m) == IF m \in {"nn", "nearest-neighbor"} THEN "nearest-neighbour" ELSE m

Held(inv) == {k \in DOMAIN inv.entries : Usable(inv.entries[k])}
Matches(inv, i, o, m) ==
  {inv.entries[k] : k \in {k \in Held(inv) : /\ inv.entries[k].i = i
                                            /\ inv.entries[k].o = o
                                            /\ inv.entries[k].m = Alias(m)}}

Loadable(inv) == inv.version = SupportedVersion
=============================================================================
