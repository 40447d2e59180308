------------------------------ MODULE TraceLedger ------------------------------
(* Lives of real codecs with a caller that keeps books: each line is a step.     *)
EXTENDS Ledger, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>))
Step == i' = i + 1
TInit == LInit /\ i = 1
TNext == \/ Is("new") /\ LNew /\ Step
         \/ Is("alloc") /\ LAlloc(T[i].id, T[i].n) /\ Step
         \/ Is("free") /\ LFree(T[i].id, T[i].n) /\ Step
         \/ Is("call") /\ LCall /\ Step
         \/ Is("release") /\ LRelease /\ Step
         \/ Is("gone") /\ LGone(T[i]) /\ Step
TSpec == TInit /\ [][TNext]_<<lvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
