----------------------------- MODULE TraceEntropy ------------------------------
EXTENDS Entropy
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
E == T[i]
TInit == EInit /\ i = 1
TNext == \/ Is("models") /\ New
         \/ Is("fresh") /\ Fresh(E.m, E.cdf, E.max, E.st, E.fr, E.runs)
         \/ Is("seen") /\ Seen(E.m, E.ops, E.cdf, E.max, E.st, E.fr, E.runs)
         \/ Is("mixed") /\ Mixed(E.a, E.b, E.w, E.cdf, E.max, E.st, E.fr, E.runs)
         \/ Is("sweep") /\ Sweep(E.ops, E.oops, E.w, E.r, E.rows)
         \/ Is("speeds") /\ Speeds(E.v)
         \/ Is("coder") /\ UNCHANGED ms
         \/ Is("put") /\ E.kept /\ UNCHANGED ms
         \/ Is("stream") /\ Bytes(E.k, E.s, E.st, E.fr, E.bytes)
TSpec == TInit /\ [][TNext]_<<ms, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
