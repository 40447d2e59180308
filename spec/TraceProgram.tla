----------------------------- MODULE TraceProgram -----------------------------
EXTENDS Program, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
TInit == PInit /\ i = 1
TStart == Is("start") /\ UNCHANGED prog
TProgram == Is("program") /\ Load(T[i].cmds)
TDecoded == Is("decoded") /\ LET e == T[i] IN
              IF e.full THEN Decoded(e.v, e.ate, e.total, TRUE, e.out, <<>>, <<>>)
              ELSE Decoded(e.v, e.ate, e.total, FALSE, <<>>, e.at, e.got)
TNext == TStart \/ TProgram \/ TDecoded
TSpec == TInit /\ [][TNext]_<<prog, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
