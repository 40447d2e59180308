------------------------------ MODULE TraceFormat ------------------------------
EXTENDS Format
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ PrintT(<<"AT", i>>) /\ i' = i + 1
E == T[i]
TInit == i = 1
TNext == Is("reading") /\ E.v = "OK" /\ Means(E)
TSpec == TInit /\ [][TNext]_i
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
