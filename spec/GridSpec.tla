------------------------------ MODULE GridSpec ------------------------------
(* When do two grid specifications describe the same grid?

   A specification is a record
     kind  "ll" | "gg" | "healpix" | "orca"
     name  grid name in its canonical spelling (not for ll)
     dx, dy, area   increments and <<north, west, south, east>> in 1/1000 degree, <<>> for an
                    omitted area (ll, gg)
     order          "ring" | "nested" | "" (omitted) for healpix
     flags          <<i_scans_negatively, j_points_consecutive, j_scans_positively>>
     shape          <<>> or the number of points along each dimension
     plus fields describing only how it is spelled (`sp`), which must not matter.          *)
EXTENDS Integers, Sequences, FiniteSets

Globe == 360000

Abs(x) == IF x < 0 THEN -x ELSE x
NormLon(x) == x % Globe

\* the area of a global latitude-longitude grid starting at the Greenwich meridian
GlobalArea(dx, dy) == LET n == (90000 \div dy) * dy
                      IN <<n, 0, -n, ((Globe - 1) \div dx) * dx>>

North(a) == a[1]
West(a) == a[2]
South(a) == a[3]
East(a) == a[4]

AreaOf(r) == IF r.area = <<>> THEN GlobalArea(r.dx, r.dy) ELSE r.area

\* covers the whole parallel: the eastmost meridian is the westmost one again, or one
\* increment away from it
AllAround(a, dx) == \/ East(a) - West(a) = Globe
                    \/ East(a) - West(a) = Globe - dx

Order(r) == IF r.order = "" THEN "ring" ELSE r.order

ShapesDiffer(r, s) == r.shape # <<>> /\ s.shape # <<>> /\ r.shape # s.shape

\* "yes": the same grid, "no": different grids, "open": neither is promised
SameLL(r, s) ==
  LET a == AreaOf(r)
      b == AreaOf(s)
  IN IF r.dx # s.dx \/ r.dy # s.dy \/ r.flags # s.flags \/ ShapesDiffer(r, s) THEN "no"
     ELSE IF a = b THEN "yes"
     ELSE IF North(a) # North(b) \/ South(a) # South(b) THEN "no"
     ELSE IF AllAround(a, r.dx) /\ AllAround(b, s.dx)
          THEN IF NormLon(West(a)) = NormLon(West(b)) THEN "yes" ELSE "no"
     ELSE IF AllAround(a, r.dx) # AllAround(b, s.dx)
          THEN IF Globe % r.dx = 0 THEN "no" ELSE "open"
     ELSE IF NormLon(West(a)) = NormLon(West(b)) /\ East(a) - West(a) = East(b) - West(b) THEN "open"
     ELSE "no"

\* only global reduced Gaussian grids starting at Greenwich are supported
SameGG(r, s) == IF r.name = s.name /\ r.flags = s.flags /\ ~ShapesDiffer(r, s) THEN "yes" ELSE "no"

SameHealpix(r, s) ==
  IF r.name = s.name /\ Order(r) = Order(s) /\ r.flags = s.flags /\ ~ShapesDiffer(r, s) THEN "yes" ELSE "no"

Same(r, s) ==
  IF r.kind # s.kind THEN "no"
  ELSE CASE r.kind = "ll" -> SameLL(r, s)
         [] r.kind = "gg" -> SameGG(r, s)
         [] r.kind = "healpix" -> SameHealpix(r, s)
         [] r.kind = "orca" -> SameGG(r, s)
=============================================================================
