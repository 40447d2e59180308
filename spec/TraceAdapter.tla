----------------------------- MODULE TraceAdapter -----------------------------
EXTENDS Adapter, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
E == T[i]
TInit == AInit /\ i = 1
TNext == \/ Is("adapter") /\ Adapt([side |-> E.side, comp |-> E.comp, known |-> E.known, want |-> E.want, n |-> E.n, len |-> E.len, bad |-> E.bad, must |-> E.must])
         \/ Is("src") /\ Source(E.r, E.k)
         \/ Is("snk") /\ Sink(E.r, E.k, E.same)
         \/ Is("read") /\ \/ E.r = "OK" /\ (ReadSome(E.n, E.k, E.same) \/ (E.k = 0 /\ (ReadEnd(E.n) \/ ReadNothing(E.n))))
                          \/ E.r # "OK" /\ ReadFails(E.r)
         \/ Is("write") /\ (IF E.r = "OK" THEN Write(E.n, E.k) ELSE WriteFails(E.r))
         \/ Is("fl") /\ (IF E.r = "OK" THEN Flushed ELSE WriteFails(E.r))
         \/ Is("means") /\ Stands(E.total, E.v, E.used, E.out, E.dig, E.wantout, E.wantdig)
         \/ Is("end") /\ Finished
         \/ Is("drop") /\ Over
TSpec == TInit /\ [][TNext]_<<avars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
