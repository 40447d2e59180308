------------------------------- MODULE TraceCli -------------------------------
EXTENDS Cli
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
E == T[i]
TInit == CInit /\ i = 1
TNext == \/ Is("cli") /\ fs' = [n \in {"adir"} |-> Dir] /\ prog' = [cmds |-> <<>>, ends |-> <<0>>]
         \/ Is("put") /\ Put(E.name, E.k, E.len, E.dig, E.magic)
         \/ Is("text") /\ Text(E.name, E.bad, E.len, E.dig, E.cmds)
         \/ Is("damage") /\ Damage(E.from, E.to, E.len, E.dig, E.magic)
         \/ Is("run") /\ Run(E.args, E.stdin, E.snk, E.rc, E.to, E.len, E.dig, E.magic, E.bytes, [v |-> E.mv, all |-> E.mall, len |-> E.mlen, dig |-> E.mdig, bytes |-> E.mbytes])
TSpec == TInit /\ [][TNext]_<<cvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
