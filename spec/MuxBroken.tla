------------------------------ MODULE MuxBroken -------------------------------
(* Multiplexers that are known to be wrong, to see that MuxDesign tells. *)
EXTENDS MuxDesign
FullMay(w, s, fin) == Len(w.pend[s]) >= Chunk                      \* what is left at the end is never sent
ForgetLeftover(w) == LET k == Least(Len(w.cur), w.room) IN [w EXCEPT !.o = @ \o Front(w.cur, k), !.room = @ - k, !.cur = <<>>]
NoLag(w, s, fin) == IF fin THEN w.pend[s] # <<>> ELSE s = 0 /\ Len(w.pend[s]) >= Chunk   \* one sub-stream only until the end
EarlyClose(room) == \* the marker before all the payload is out
    /\ marker < 3
    /\ LET w == Leftover([W EXCEPT !.room = room])
           marks == IF closing /\ w.room > 0 THEN Marks(marker, w.room) ELSE <<>>
       IN /\ pend' = w.pend /\ cur' = w.cur /\ last' = w.last /\ flushed' = w.flushed
          /\ marker' = marker + Len(marks) /\ wire' = wire \o w.o \o marks /\ UNCHANGED <<next, closing, rc, out, eof>>
=============================================================================
