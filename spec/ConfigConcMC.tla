---------------------------- MODULE ConfigConcMC -----------------------------
EXTENDS ConfigConc
P == "weights-memory-cache-policy"
M == "maximum-weights-memory-cache-size"
T == "url-download-timeout"
I(o, v) == [o |-> o, v |-> v]
St(items) == [o |-> "set", items |-> items]
Rs(o) == [o |-> "reset", items |-> <<I(o, S0!Table[o].def)>>]
Gt(o) == [o |-> "get", items |-> <<I(o, "")>>]
En(items) == [o |-> "enter", items |-> items]
Ex == [o |-> "exit", items |-> <<>>]
Few == {<<St(<<I(T, "i:10")>>)>>, <<St(<<I(T, "s:1m"), I(M, "n:")>>)>>, <<St(<<I(T, "s:2h"), I(P, "s:bad")>>)>>, <<St(<<I(M, "i:2048"), I(P, "s:lru")>>)>>,
        <<Rs(T)>>, <<Gt(T)>>, <<En(<<I(T, "i:10")>>), Ex>>, <<En(<<I(M, "n:")>>), Gt(M), Ex>>, <<En(<<>>), St(<<I(T, "s:45")>>), Ex>>,
        <<En(<<I(T, "s:2h"), I(P, "s:bad")>>), Ex>>}
Many == Few \cup {<<En(<<I(P, "s:off")>>), St(<<I(M, "n:")>>), Rs(M), Ex, Gt(M)>>, <<St(<<I(P, "s:off")>>), En(<<I(M, "n:")>>), St(<<I(P, "s:lru")>>), Ex>>,
                  <<En(<<>>), Ex, En(<<I(T, "i:10")>>), Ex>>, <<Rs(P), Rs(M)>>}
=============================================================================
