------------------------------ MODULE Options ------------------------------
(* What the interpolation engine has to be told about a call: the options the caller gave, as given, in the
   engine's spelling; the documented default or nothing about the others; the target grid without the area, and
   the area as north/west/south/east.  Options are functions from their names to texts; numbers are canonical. *)
EXTENDS Naturals, Sequences
Names == {"interpolation", "nearest_method", "distance", "distance_tolerance", "nclosest"}
Unset == "(unset)"
Documented(o) == CASE o = "interpolation" -> "linear" [] o = "nearest_method" -> "automatic"
                   [] o = "distance" -> "1.0" [] o = "distance_tolerance" -> "1.0" [] o = "nclosest" -> "4.0"
\* the engine spells the methods with dashes
Spelt(v) == CASE v = "distance_and_nclosest" -> "distance-and-nclosest" [] v = "distance_or_nclosest" -> "distance-or-nclosest"
              [] v = "nclosest_or_nearest" -> "nclosest-or-nearest" [] v = "sorted_sample" -> "sorted-sample"
              [] v = "nearest_neighbour_with_lowest_index" -> "nearest-neighbour-with-lowest-index" [] OTHER -> v
Gives(given, o) == o \in DOMAIN given
Value(f, o) == IF o \in DOMAIN f THEN f[o] ELSE Unset
\* the values the engine may be told about o
Told(given, o) ==
  IF ~Gives(given, o) THEN {Unset, Documented(o)}
  ELSE IF o # "nearest_method" THEN {given[o]}
  ELSE IF given[o] = "automatic" THEN {Unset, "automatic"} ELSE {Spelt(given[o])}
\* the least that has to be told
Tell(given, o) == IF ~Gives(given, o) THEN Unset ELSE IF given[o] = "automatic" THEN Unset ELSE IF o = "nearest_method" THEN Spelt(given[o]) ELSE given[o]
\* a job of the engine serves a call [given, grid, area]
Serves(job, call) == /\ \A o \in Names : Value(job.opts, o) \in Told(call.given, o)
                     /\ DOMAIN job.opts \subseteq Names
                     /\ job.grid = call.grid /\ job.area = call.area
=============================================================================
