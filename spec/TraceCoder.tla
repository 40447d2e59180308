------------------------------ MODULE TraceCoder -------------------------------
EXTENDS Coder
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
E == T[i]
TInit == KInit /\ i = 1
TNext == \/ Is("models") /\ UNCHANGED kvars
         \/ (Is("fresh") \/ Is("seen") \/ Is("mixed")) /\ Seen(E.cdf, E.max, E.st, E.fr, E.runs)
         \/ Is("sweep") /\ Swept(E.rows)
         \/ Is("coder") /\ Open(E.n)
         \/ Is("put") /\ Put(E.kept, E.n, E.bytes, E.s)
         \/ Is("got") /\ Got(E.short, E.used, E.s)
TSpec == TInit /\ [][TNext]_<<kvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
