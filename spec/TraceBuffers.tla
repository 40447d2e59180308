----------------------------- MODULE TraceBuffers -----------------------------
EXTENDS Buffers, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>))
Step == i' = i + 1
TInit == BInit /\ i = 1
TNext == \/ Is("ra") /\ Fresh /\ Step
         \/ Is("grow") /\ Fresh /\ Step
         \/ Is("take") /\ Take(T[i]) /\ Step
         \/ Is("give") /\ Give(T[i]) /\ Step
         \/ Is("clean") /\ Clean(T[i]) /\ Step
         \/ Is("swap") /\ Swap(T[i]) /\ Step
         \/ Is("end") /\ End /\ Step
         \/ Is("checkout") /\ Checkout(T[i]) /\ Step
         \/ Is("commit") /\ Commit(T[i]) /\ Step
         \/ Is("look") /\ Look(T[i]) /\ Step
         \/ Is("gfree") /\ GFree(T[i]) /\ Step
         \/ Is("view") /\ View(T[i]) /\ Step
         \/ Is("poke") /\ Poke(T[i]) /\ Step
         \/ Is("parts") /\ Parts(T[i]) /\ Step
         \/ Is("pair") /\ Pair(T[i]) /\ Step
TSpec == TInit /\ [][TNext]_<<bvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
