----------------------------- MODULE TraceSession -----------------------------
(* Accepts a recorded trace iff every line of it is a step Session allows.   *)
EXTENDS Session, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>

Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
TInit == Init /\ i = 1
TStart == Is("start") /\ Start(T[i].facts)
TDecode == Is("dec") /\ LET e == T[i] IN
             \/ Decode(e.ia, e.oa, e.used, e.wrote, e.ret, e.same, e.dig)
             \/ DecodeDone(e.ia, e.oa, e.used, e.wrote, e.ret)
             \/ DecodeFailed(e.ia, e.oa, e.used, e.wrote, e.ret)
TDry   == Is("dry") /\ RunDry(T[i].dig)
TEncode == Is("enc") /\ LET e == T[i] IN Encode(e.ia, e.oa, e.used, e.wrote, e.ret)
TCommands == Is("cmds") /\ LET e == T[i] IN Commands(e.ia, e.oa, e.used, e.wrote, e.ret)
TFlush == Is("flush") /\ LET e == T[i] IN
             \/ Flush(e.oa, e.wrote, e.ret, e.dig)
             \/ FlushDone(e.oa, e.wrote, e.ret)
TMeans == Is("means") /\ LET e == T[i] IN Means(e.total, e.v, e.used, e.out, e.dig, e.wantout, e.wantdig)
(* the session is over and was released; a compressor's work must be done, and a valid stream complete *)
TEnd   == Is("end") /\ (c.kind = "enc" \/ c.mode \in {"valid", "csum"} => st = "done")
                    /\ (c.kind = "dec" => st \in {"done", "failed", "dry"})
                    /\ c' = Idle /\ st' = "idle" /\ fed' = 0 /\ got' = 0
(* released in the middle *)
TDrop  == Is("drop") /\ c' = Idle /\ st' = "idle" /\ fed' = 0 /\ got' = 0
TNext == TStart \/ TDecode \/ TDry \/ TEncode \/ TCommands \/ TFlush \/ TMeans \/ TEnd \/ TDrop
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
