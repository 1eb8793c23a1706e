--------------------------- MODULE MemCacheConcMC ---------------------------
EXTENDS MemCacheConc
CSize == <<2, 3, 5>>
CEst == <<2, 3, 5>>
G(k) == [o |-> "get", k |-> k, p |-> "", l |-> 0, s |-> FALSE]
Set(p, l, s) == [o |-> "set", k |-> 1, p |-> p, l |-> l, s |-> s]
COps == {G(1), G(2), G(3), [o |-> "clear", k |-> 1, p |-> "", l |-> 0, s |-> FALSE],
         Set("off", 5, FALSE), Set("lru", 4, TRUE), Set("lru", 0, TRUE), Set("unlimited", 5, FALSE), Set("largest", 5, FALSE)}
=============================================================================
