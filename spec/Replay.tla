-------------------------------- MODULE Replay --------------------------------
(* What replaying commands means, and what a replayer with a ring buffer may    *)
(* deliver when.  The state is the bytes denoted so far (hist), how many of      *)
(* them have been delivered (sent), and the command being replayed, whose bytes  *)
(* are part of hist from the moment it is begun.                                 *)
EXTENDS Words, Integers
VARIABLES hist, sent, ring, cur
rvars == <<hist, sent, ring, cur>>
Nothing == [k |-> "none"]
RInit == hist = <<>> /\ sent = 0 /\ ring = 0 /\ cur = Nothing
(* ---- the meaning of commands ---- *)
(* d bytes back from the end of h; what lies before the start of data reads as zeros *)
Back(h, d) == IF d <= Len(h) THEN SubSeq(h, Len(h) - d + 1, Len(h)) ELSE [j \in 1..(d - Len(h)) |-> 0] \o h
CopyBytes(h, d, n) == IF n <= d THEN SubSeq(Back(h, d), 1, n)
                      ELSE LET src == Back(h, d) IN [j \in 1..n |-> src[((j - 1) % d) + 1]]
(* a ring of r bytes is a window of r-1 *)
Good(c, r) == CASE c.k = "lit" -> TRUE
                [] c.k = "copy" -> c.d > 0 /\ c.d < r
                [] c.k = "dict" -> /\ WordOK(c.size, c.id) /\ TransformOK(c.t)
                                   /\ c.final = 0 \/ c.final = Len(Word(c.size, c.id, c.t))
                [] c.k = "nop" -> TRUE
Bytes(c, h) == CASE c.k = "lit" -> c.bytes
                 [] c.k = "copy" -> CopyBytes(h, c.d, c.n)
                 [] c.k = "dict" -> Word(c.size, c.id, c.t)
                 [] c.k = "nop" -> <<>>
(* ---- the replayer ---- *)
RStart(r) == hist' = <<>> /\ sent' = 0 /\ ring' = r /\ cur' = Nothing
Delivered(b) == sent + Len(b) <= Len(hist) /\ SubSeq(hist, sent + 1, sent + Len(b)) = b /\ sent' = sent + Len(b)
(* a command is begun *)
Begin(c) == /\ cur = Nothing
            /\ cur' = [c |-> c, good |-> Good(c, ring)]
            /\ hist' = IF Good(c, ring) THEN hist \o Bytes(c, hist) ELSE hist
            /\ UNCHANGED <<sent, ring>>
(* one call on the current command with this much output space *)
Call(room, b, ret) ==
   /\ cur # Nothing /\ Len(b) <= room /\ Delivered(b)
   /\ CASE ret = "OK"  -> cur.good /\ Len(hist) - sent' <= ring - 1 /\ cur' = Nothing
        [] ret = "NMO" -> Len(b) = room /\ sent' < Len(hist) /\ UNCHANGED cur
        [] ret = "ERR" -> ~cur.good /\ cur' = Nothing
   /\ UNCHANGED <<hist, ring>>
(* delivering what is still in the ring *)
RFlush(room, b, ret) ==
   /\ cur = Nothing
   /\ Len(b) <= room /\ Delivered(b)
   /\ CASE ret = "OK" -> sent' = Len(hist)
        [] ret = "NMO" -> Len(b) = room /\ sent' < Len(hist)
        [] OTHER -> FALSE
   /\ UNCHANGED <<hist, ring, cur>>
(* many commands at once: all that precede the first bad one are denoted *)
RECURSIVE Denote(_, _, _, _)
Denote(h, cs, marks, r) == IF cs = <<>> \/ ~Good(cs[1], r) THEN <<h, marks>>
                           ELSE LET h2 == h \o Bytes(cs[1], h) IN Denote(h2, Tail(cs), Append(marks, Len(h2)), r)
Denote_(cs, r) == Denote(<<>>, cs, <<>>, r)
BatchBegin(cs) == /\ cur = Nothing
                  /\ LET d == Denote(hist, cs, <<>>, ring) IN
                       /\ hist' = d[1]
                       /\ cur' = [marks |-> d[2], from |-> Len(hist), n |-> Len(cs), taken |-> 0]
                  /\ UNCHANGED <<sent, ring>>
(* taken: how many commands are done; where the bytes of a finished command end: marks *)
BatchCall(room, b, taken, ret) ==
   /\ cur # Nothing /\ Len(b) <= room /\ Delivered(b)
   /\ taken >= cur.taken /\ taken <= Len(cur.marks)
   /\ LET done == IF taken = 0 THEN cur.from ELSE cur.marks[taken]
          next == IF taken < Len(cur.marks) THEN cur.marks[taken + 1] ELSE Len(hist)
      IN /\ done - sent' <= ring - 1            \* what is done but undelivered is in the ring
         /\ sent' <= next                       \* nothing of a command not begun is delivered
   /\ CASE ret = "OK"  -> taken = cur.n /\ sent' = Len(hist) /\ cur' = Nothing
        [] ret = "NMO" -> Len(b) = room /\ sent' < Len(hist) /\ cur' = [cur EXCEPT !.taken = taken]
        [] ret = "ERR" -> Len(cur.marks) < cur.n /\ taken = Len(cur.marks) /\ cur' = Nothing
   /\ UNCHANGED <<hist, ring>>
(* what the replayer says about itself *)
Newest(i) == IF i <= Len(hist) THEN hist[Len(hist) - i + 1] ELSE 0
Tells(last8, count) == /\ cur = Nothing /\ count = sent
                       /\ (last8 = [i \in 1..8 |-> Newest(9 - i)] \/ last8 = [i \in 1..8 |-> Newest(i)])
                       /\ UNCHANGED rvars
=============================================================================
