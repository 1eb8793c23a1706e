----------------------------- MODULE GridSpecMC -----------------------------
(* Enumerates the specifications to be compared (one initial state each), and checks that
   Same is an equivalence as far as it is decided.                                         *)
EXTENDS GridSpec, TLC, Json

VARIABLE g

NoFlags == <<0, 0, 0>>
FlagSets == {NoFlags, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>}
Rec(kind, name, dx, dy, area, order, flags, shape, sp) ==
  [kind |-> kind, name |-> name, dx |-> dx, dy |-> dy, area |-> area, order |-> order,
   flags |-> flags, shape |-> shape, sp |-> sp]

\* how a specification is spelled: list or tuple, integers or floats, defaults given or not,
\* lower or upper case, type given or not, global flag given or not, old key for the order
Sp(seq, num, dflt, case, typ, glob, old) ==
  [seq |-> seq, num |-> num, dflt |-> dflt, case |-> case, typ |-> typ, glob |-> glob, old |-> old]
Plain == Sp("list", "int", FALSE, "upper", FALSE, FALSE, FALSE)
LLSpellings == {Sp(s, n, d, "upper", t, FALSE, FALSE) : s \in {"list", "tuple"}, n \in {"int", "float", "numpy"}, d \in BOOLEAN, t \in BOOLEAN}
NameSpellings == {Sp("list", "int", d, c, t, FALSE, FALSE) : d \in BOOLEAN, c \in {"upper", "lower"}, t \in BOOLEAN}

Incs == {<<1000, 1000>>, <<10000, 10000>>, <<250, 250>>, <<5000, 10000>>, <<10000, 5000>>, <<700, 700>>, <<1001, 1000>>, <<125, 125>>}
Areas(dx) == { <<>>, <<90000, 0, -90000, Globe - dx>>, <<90000, 0, -90000, Globe>>,
  <<90000, -180000, -90000, 180000 - dx>>, <<90000, -180000, -90000, 180000>>, <<90000, 180000, -90000, 540000 - dx>>,
  <<90000, -360000, -90000, -dx>>, <<90000, 360000, -90000, 720000 - dx>>, <<90000, dx, -90000, Globe>>,
  <<60000, 0, -60000, Globe - dx>>, <<90000, 0, 0, Globe - dx>>, <<0, 0, -90000, Globe - dx>>, <<60000, 0, 30000, 20000>>, <<60000, 0, 30000, 30000>>,
  <<60000, -20000, 30000, 0>>, <<60000, 340000, 30000, 360000>>, <<60000, 0, 20000, 20000>>, <<70000, 0, 30000, 20000>>, <<60000, 10000, 30000, 20000>>,
  <<30000, 0, -60000, Globe - dx>>, <<-30000, 0, -60000, Globe - dx>>, <<60000, 0, -30000, Globe - dx>>, <<60000, 0, 30000, Globe - dx>>,
  <<60000, 20000, 30000, 40000>>, <<60000, -40000, 30000, -20000>>, <<-30000, 20000, -60000, 40000>>, <<30000, 20000, -60000, 40000>>,
  <<60000, 0, -60000, Globe>>, <<60000, -180000, -60000, 180000>> }

LL == {Rec("ll", "", d[1], d[2], a, "", f, <<>>, Plain) : d \in Incs, a \in {<<>>}, f \in FlagSets}
      \cup UNION {{Rec("ll", "", d[1], d[2], a, "", NoFlags, <<>>, Plain) : a \in Areas(d[1])} : d \in Incs}
      \cup {Rec("ll", "", d[1], d[2], a, "", NoFlags, <<>>, s) : d \in {<<10000, 10000>>}, a \in {<<>>, <<90000, -180000, -90000, 170000>>, <<60000, 0, 30000, 20000>>}, s \in LLSpellings}
      \cup {Rec("ll", "", 10000, 10000, <<90000, 0, -90000, 350000>>, "", NoFlags, <<>>, [s EXCEPT !.glob = TRUE]) : s \in LLSpellings}
      \cup {Rec("ll", "", 10000, 10000, <<>>, "", NoFlags, sh, s) : sh \in {<<19, 36>>, <<19, 37>>, <<36, 19>>}, s \in {Plain, Sp("tuple", "int", TRUE, "upper", TRUE, FALSE, FALSE)}}
      \cup {Rec("ll", "", 10000, 10000, <<60000, 0, 30000, 20000>>, "", f, <<>>, Sp("tuple", "float", TRUE, "upper", TRUE, FALSE, FALSE)) : f \in FlagSets}
GG == {Rec("gg", n, 0, 0, <<>>, "", NoFlags, <<>>, s) : n \in {"O32", "N32", "O320", "N320", "O3", "O16", "N45", "O48"}, s \in NameSpellings}
      \cup {Rec("gg", n, 0, 0, <<>>, "", f, <<>>, Plain) : n \in {"O32", "N45"}, f \in FlagSets}
      \cup {Rec("gg", "O32", 0, 0, a, "", NoFlags, <<5248>>, Plain) : a \in {<<>>, <<87864, 0, -87864, 357500>>, <<90000, 0, -90000, 360000>>, <<87864, 0, -87864, 360000>>}}
      \cup {Rec("gg", "N45", 0, 0, a, "", NoFlags, <<>>, Plain) : a \in {<<88500, 0, -88500, 358000>>, <<90000, 0, -90000, 358000>>}}
      \cup {Rec("gg", "O32", 0, 0, <<>>, "", NoFlags, <<5247>>, Plain)}
HP == {Rec("healpix", n, 0, 0, <<>>, o, NoFlags, <<>>, [s EXCEPT !.old = old]) :
          n \in {"H1", "H4", "H32", "H320", "H512"}, o \in {"", "ring", "nested"}, s \in NameSpellings, old \in BOOLEAN}
      \cup {Rec("healpix", "H4", 0, 0, <<>>, o, f, <<>>, Plain) : o \in {"", "nested"}, f \in FlagSets}
OR == {Rec("orca", n, 0, 0, <<>>, "", NoFlags, <<>>, s) :
          n \in {"eORCA025_T", "eORCA025_U", "eORCA025_V", "eORCA025_W", "eORCA1_T", "ORCA1_T", "eORCA12_T", "ORCA2_T"},
          s \in {t \in NameSpellings : t.case = "upper"}}

All == LL \cup GG \cup HP \cup OR

Init == g \in All /\ PrintT("@SPEC " \o ToJson(g))
Next == UNCHANGED g
Spec == Init /\ [][Next]_g

Canonical(r) == [r EXCEPT !.sp = Plain]
Abstract == {Canonical(r) : r \in All}
\* Same is reflexive, symmetric and, where it says yes, transitive
EquivInv == /\ Same(g, g) = "yes"
            /\ \A h \in Abstract : Same(g, h) = Same(h, g)
            /\ g.sp = Plain => \A h \in Abstract : (Same(g, h) = "yes" /\ g.shape = h.shape) =>
                 \A k \in Abstract : (k.shape = g.shape /\ k.kind = g.kind) => Same(g, k) = Same(h, k)
=============================================================================
