------------------------------- MODULE TraceWire -------------------------------
(* Recorded multiplexer operations and recorded whole streams.                 *)
EXTENDS Mux, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>)) /\ i' = i + 1
TInit == /\ i = 1 /\ pend = Empty2 /\ wcur = Between /\ wire = <<>> /\ rcur = Between /\ out = Empty2
         /\ last = [s \in S |-> 0] /\ total = 0 /\ closing = FALSE
TStart == Is("start") /\ MStart
TPush  == Is("push") /\ Append_(T[i].s, T[i].bytes)
TSer   == Is("ser") /\ Serialise(T[i].room, T[i].bytes, T[i].fin, T[i].eof)
TDe    == Is("de") /\ Deserialise(T[i].bytes, T[i].used, T[i].eof)
TReady == Is("ready") /\ Ready(T[i].s, T[i].n)
TTake  == Is("take") /\ Take(T[i].s, T[i].bytes)
TFin   == Is("fin") /\ Finished
(* a whole stream of a compressor *)
TStream == Is("stream") /\ WholeStream(T[i].bytes, T[i].w) /\ UNCHANGED mvars
(* the same stream, sliced in another legal way, and what decompressing it gave *)
TResliced == Is("resliced") /\ WholeStream(T[i].bytes, T[i].bytes[6])
                 /\ SubSeq(T[i].bytes, 1, 16) = SubSeq(T[i].from, 1, 16)
                 /\ Substreams(T[i].bytes) = Substreams(T[i].from)
                 /\ T[i].v = "OK" /\ T[i].used = Len(T[i].bytes) /\ T[i].same
                 /\ UNCHANGED mvars
TNext == TStart \/ TPush \/ TSer \/ TDe \/ TReady \/ TTake \/ TFin \/ TStream \/ TResliced
TSpec == TInit /\ [][TNext]_<<mvars, i>>
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
