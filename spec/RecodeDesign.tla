----------------------------- MODULE RecodeDesign -----------------------------
(* The ring-buffer algorithm that replays commands, with small rings, against   *)
(* what the commands mean (Replay).  Words are left out: they are literals that  *)
(* are put into the ring in one piece.                                          *)
(*                                                                              *)
(* di, oi: where the next byte is decoded to and delivered from; sub: how much   *)
(* of the current command is in the ring.  Short repeats are copied from a small *)
(* buffer of RepeatMax bytes; the rest in segments that do not wrap.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ring, RepeatMax, Lazy, MaxHist, MaxRoom, MaxLit
VARIABLES buf, di, oi, sub, cmd, hist, sent
vars == <<buf, di, oi, sub, cmd, hist, sent>>
None == [k |-> "none"]
Values == {1, 2}
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE SeqsOf(_)
SeqsOf(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, v) : s \in SeqsOf(n - 1), v \in Values}
Lits == UNION {SeqsOf(n) : n \in 1..MaxLit}
Cmds == {[k |-> "lit", bytes |-> b] : b \in Lits} \cup {[k |-> "copy", d |-> d, n |-> n] : d \in 0..(Ring + 1), n \in 0..(2 * Ring)}
         \cup {[k |-> "word", bytes |-> b] : b \in {s \in Lits : Len(s) < Ring}}
Good(c) == c.k # "copy" \/ (c.d > 0 /\ c.d < Ring)
At(h, p) == IF p < 1 THEN 0 ELSE h[p]
RECURSIVE Extend(_, _, _)
Extend(h, d, n) == IF n = 0 THEN h ELSE Extend(Append(h, At(h, Len(h) + 1 - d)), d, n - 1)
Meaning(c, h) == IF c.k = "copy" THEN Extend(h, c.d, c.n) ELSE h \o c.bytes
(* ---- the algorithm: a state of it is s = [buf, di, oi, sub] ---- *)
Space(s) == IF s.oi <= s.di THEN s.oi + Ring - 1 - s.di ELSE s.oi - 1 - s.di
RECURSIVE Put(_, _)
PutOne(s, v) == [s EXCEPT !.buf[s.di] = v, !.di = (s.di + 1) % Ring]
Put(s, b) == IF b = <<>> THEN s ELSE Put(PutOne(s, b[1]), Tail(b))
(* copy_to_ring_buffer: as much as there is space for; <<s, how much>> *)
Fill(s, b) == LET n == MinOf(Len(b), Space(s)) IN <<Put(s, SubSeq(b, 1, n)), n>>
(* copy_decoded_from_ring_buffer *)
FarNear(s, d, n) == LET far == IF d > s.di THEN MinOf(d - s.di, n) ELSE 0
                        ld  == IF d > s.di THEN s.di ELSE d
                    IN [j \in 1..n |-> IF j <= far THEN s.buf[Ring - (d - s.di) + j - 1] ELSE s.buf[s.di - ld + (j - far) - 1]]
RECURSIVE RepeatLoop(_, _, _)
\* whole repeats, then the remainder; gives <<s, done>>
RepeatLoop(s, r, n) == IF n >= Len(r)
                       THEN LET f == Fill(s, r) IN
                            IF f[2] # Len(r) THEN <<[f[1] EXCEPT !.sub = @ + f[2]], FALSE>>
                            ELSE RepeatLoop([f[1] EXCEPT !.sub = @ + f[2]], r, n - Len(r))
                       ELSE LET f == Fill(s, SubSeq(r, 1, n)) IN <<[f[1] EXCEPT !.sub = @ + f[2]], f[2] = n>>
Segment(s, d, want) == LET n0  == MinOf(Space(s), want)
                           src == IF s.di >= d THEN s.di - d ELSE s.di + Ring - d
                           n1  == MinOf(n0, MinOf(Ring - s.di, Ring - src))
                           n2  == IF src < s.di THEN n1 ELSE MinOf(n1, src - s.di)
                       IN <<Put(s, [j \in 1..n2 |-> s.buf[src + j - 1]]), n2>>
Parse(s, c) ==
  CASE c.k = "lit" -> LET f == Fill(s, SubSeq(c.bytes, s.sub + 1, Len(c.bytes))) IN
                      <<[f[1] EXCEPT !.sub = @ + f[2]], IF s.sub + f[2] = Len(c.bytes) THEN "OK" ELSE "NMO">>
    [] c.k = "word" -> IF Space(s) < Len(c.bytes) THEN <<s, "NMO">>
                       ELSE IF s.sub # 0 THEN <<s, "OK">>
                       ELSE <<[Put(s, c.bytes) EXCEPT !.sub = Len(c.bytes)], "OK">>
    [] c.k = "copy" -> IF c.d = 0 \/ c.d >= Ring THEN <<s, "ERR">>
                       ELSE LET left == c.n - s.sub IN
                            IF c.d <= RepeatMax /\ left > c.d
                            THEN LET n == MinOf(left, Space(s))
                                     r == RepeatLoop(s, FarNear(s, c.d, c.d), n)
                                 IN <<r[1], IF r[2] /\ n = left THEN "OK" ELSE "NMO">>
                            ELSE LET g == Segment(s, c.d, MinOf(left, c.d))
                                 IN <<[g[1] EXCEPT !.sub = @ + g[2]], IF g[2] = left THEN "OK" ELSE "NMO">>
(* flush: <<s, bytes, done>> *)
Drain(s, room) == LET n == MinOf((s.di + Ring - s.oi) % Ring, room) IN
                  <<[s EXCEPT !.oi = (s.oi + n) % Ring], [j \in 1..n |-> s.buf[(s.oi + j - 1) % Ring]], (s.oi + n) % Ring = s.di>>
RECURSIVE Run(_, _, _, _)
Run(s, c, room, out) ==
  LET p == Parse(s, c) IN
  CASE p[2] = "ERR" -> <<p[1], out, "ERR">>
    [] p[2] = "NMO" -> LET f == Drain(p[1], room) IN
                       IF f[3] THEN Run(f[1], c, room - Len(f[2]), out \o f[2]) ELSE <<f[1], out \o f[2], "NMO">>
    [] p[2] = "OK" -> IF (p[1].di \div Lazy) = (p[1].oi \div Lazy) THEN <<[p[1] EXCEPT !.sub = 0], out, "OK">>
                      ELSE LET f == Drain(p[1], room) IN
                           IF f[3] THEN <<[f[1] EXCEPT !.sub = 0], out \o f[2], "OK">> ELSE <<f[1], out \o f[2], "NMO">>
Machine == [buf |-> buf, di |-> di, oi |-> oi, sub |-> sub]
Become(s) == buf' = s.buf /\ di' = s.di /\ oi' = s.oi /\ sub' = s.sub
VARIABLE last        \* what the last call delivered and answered
allv == <<vars, last>>
Init == /\ buf = [x \in 0..(Ring - 1) |-> 0] /\ di = 0 /\ oi = 0 /\ sub = 0 /\ cmd = None /\ hist = <<>> /\ sent = 0
        /\ last = [room |-> 0, bytes |-> <<>>, ret |-> "OK", good |-> TRUE, before |-> 0, done |-> TRUE]
Begin == /\ cmd = None
         /\ \E c \in Cmds : /\ Len(hist) + (IF c.k = "copy" THEN c.n ELSE Len(c.bytes)) <= MaxHist
                            /\ cmd' = c /\ hist' = IF Good(c) THEN Meaning(c, hist) ELSE hist
         /\ UNCHANGED <<buf, di, oi, sub, sent, last>>
Call == /\ cmd # None
        /\ \E room \in 0..MaxRoom :
             LET r == Run(Machine, cmd, room, <<>>) IN
             /\ Become(r[1]) /\ sent' = sent + Len(r[2])
             /\ cmd' = IF r[3] = "NMO" THEN cmd ELSE None
             /\ last' = [room |-> room, bytes |-> r[2], ret |-> r[3], good |-> Good(cmd), before |-> sent, done |-> FALSE]
        /\ UNCHANGED hist
Next == Begin \/ Call
Fair == Init /\ [][Next]_allv /\ WF_allv(Call)
(* ---- what Replay demands of each call ---- *)
Faithful == LET n == Len(last.bytes) IN
            /\ n <= last.room
            /\ last.before + n <= Len(hist) /\ SubSeq(hist, last.before + 1, last.before + n) = last.bytes
            /\ last.ret = "ERR" => ~last.good
            /\ last.ret = "OK" => last.good
            /\ (last.ret = "NMO" /\ cmd # None /\ last.before + n = sent) => n = last.room /\ sent < Len(hist)
InRing == cmd = None => /\ Len(hist) - sent <= Ring - 1
                        /\ sub = 0
                        /\ \A j \in 1..MinOf(Len(hist), Ring) : buf[(di + Ring - j) % Ring] = hist[Len(hist) - j + 1]
(* a command is finished as long as it is given output space *)
Finishes == []<>(cmd = None \/ last.room = 0)
=============================================================================
