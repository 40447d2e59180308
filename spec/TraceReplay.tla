------------------------------ MODULE TraceReplay ------------------------------
(* Recorded runs of the command replayer.                                       *)
EXTENDS Replay, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
TInit == RInit /\ i = 1
TStart == Is("start") /\ RStart(T[i].ring)
TCmd   == Is("cmd") /\ Begin(T[i])
TCall  == Is("call") /\ Call(T[i].room, T[i].bytes, T[i].ret)
TFlush == Is("flush") /\ cur = Nothing /\ RFlush(T[i].room, T[i].bytes, T[i].ret)
TTells == Is("tells") /\ Tells(T[i].last8, T[i].count)
TBatch == Is("batch") /\ BatchBegin(T[i].cmds)
TBCall == Is("bcall") /\ BatchCall(T[i].room, T[i].bytes, T[i].taken, T[i].ret)
(* a stream of these commands whose header says the window is 2^w: it is rejected exactly when a command
   reaches further, having delivered no more than what precedes that command; else it means what the commands mean *)
WindowedOK(e) == LET d == Denote_(e.cmds, 2 ^ e.w) IN
                 IF Len(d[2]) = Len(e.cmds) THEN e.v = "OK" /\ e.out = d[1]
                 ELSE e.v = "ERR" /\ Len(e.out) <= Len(d[1]) /\ SubSeq(d[1], 1, Len(e.out)) = e.out
TWindowed == Is("windowed") /\ WindowedOK(T[i]) /\ UNCHANGED rvars
TNext == TStart \/ TCmd \/ TCall \/ TFlush \/ TTells \/ TBatch \/ TBCall \/ TWindowed
TSpec == TInit /\ [][TNext]_<<rvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
