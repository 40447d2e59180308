------------------------------- MODULE MuxDesign -------------------------------
(***************************************************************************)
(* How src/mux.rs meets the contract of Mux.tla: pending payload per        *)
(* sub-stream, a slice being written with what of it is still to come       *)
(* (cur), the point each sub-stream was last served (last) and the rule     *)
(* which of them may be served next; a closing phase; and the reader with   *)
(* its cursor.  Tokens stand for bytes: <<"h", s, n>> opens a slice (a      *)
(* header of HeaderLen tokens), <<"d", s, i>> is the i-th payload byte of s.*)
(* Slice sizes, the lag allowed and the amounts are small constants.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Amount,      \* payload bytes per sub-stream
          Chunk,       \* pending bytes that make a slice worthwhile
          LagChunk,    \* the same for a sub-stream that lags behind
          Variance,    \* how far one may run ahead
          MaxRoom, MaxPiece
VARIABLES next, pend, cur, last, flushed, closing, marker, wire, rc, out, eof
vars == <<next, pend, cur, last, flushed, closing, marker, wire, rc, out, eof>>
S == {0, 1}
Init == /\ next = [s \in S |-> 1] /\ pend = [s \in S |-> <<>>] /\ cur = <<>> /\ last = [s \in S |-> 0] /\ flushed = 0
        /\ closing = FALSE /\ marker = 0 /\ wire = <<>> /\ rc = [k |-> "slice", s |-> 0, n |-> 0] /\ out = [s \in S |-> <<>>] /\ eof = FALSE
Push(s, n) == /\ ~closing /\ next[s] + n - 1 <= Amount
              /\ pend' = [pend EXCEPT ![s] = @ \o [i \in 1..n |-> <<"d", s, next[s] + i - 1>>]]
              /\ next' = [next EXCEPT ![s] = @ + n]
              /\ UNCHANGED <<cur, last, flushed, closing, marker, wire, rc, out, eof>>
Close == ~closing /\ closing' = TRUE /\ UNCHANGED <<next, pend, cur, last, flushed, marker, wire, rc, out, eof>>

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Front(q, n) == SubSeq(q, 1, Least(n, Len(q)))
Rest(q, n) == SubSeq(q, n + 1, Len(q))

(* a state of the writer while it fills the room *)
W == [pend |-> pend, cur |-> cur, last |-> last, flushed |-> flushed, o |-> <<>>, room |-> 0]
Open(w, s, n) ==
    LET slice == <<<<"h", s, n>>, <<"h", s, n>>>> \o Front(w.pend[s], n)   \* a header of two tokens
        k == Least(Len(slice), w.room)
    IN [w EXCEPT !.pend[s] = Rest(@, n), !.flushed = @ + n, !.last[s] = w.flushed + n,
                 !.o = @ \o Front(slice, k), !.room = @ - k, !.cur = Rest(slice, k)]
Leftover(w) == LET k == Least(Len(w.cur), w.room) IN [w EXCEPT !.o = @ \o Front(w.cur, k), !.room = @ - k, !.cur = Rest(@, k)]
Lags(w, s) == Most(w.last[0], w.last[1]) > Variance + w.last[s]
May(w, s, fin) == LET low == IF fin THEN IF w.pend[0] # <<>> /\ w.pend[1] # <<>> THEN Least(w.last[0], w.last[1])
                                         ELSE IF w.pend[0] # <<>> THEN w.last[0] ELSE w.last[1]
                             ELSE Least(w.last[0], w.last[1])
                  IN /\ w.last[s] <= low + Variance
                     /\ IF fin THEN w.pend[s] # <<>> ELSE Len(w.pend[s]) >= IF Lags(w, s) THEN LagChunk ELSE Chunk
Size(w, s, fin) == IF fin \/ Lags(w, s) THEN Len(w.pend[s]) ELSE Chunk
RECURSIVE Fill(_, _)
Fill(w, fin) ==
    IF w.room = 0 THEN w
    ELSE LET w1 == IF May(w, 0, fin) THEN Open(w, 0, Size(w, 0, fin)) ELSE w
             w2 == IF w1.cur = <<>> /\ w1.room > 0 /\ May(w1, 1, fin) THEN Open(w1, 1, Size(w1, 1, fin)) ELSE w1
         IN IF w2 = w THEN w ELSE IF w2.cur # <<>> THEN w2 ELSE Fill(w2, fin)
Writer(room) == Fill(Leftover([W EXCEPT !.room = room]), closing)
Marks(m, room) == LET k == Least(3 - m, room) IN [j \in 1..k |-> <<"e", m + j, 0>>]
Serialise(room) ==
    /\ marker < 3
    /\ LET w == Writer(room)
           marks == IF closing /\ w.room > 0 THEN Marks(marker, w.room) ELSE <<>>
       IN /\ pend' = w.pend /\ cur' = w.cur /\ last' = w.last /\ flushed' = w.flushed
          /\ marker' = marker + Len(marks)
          /\ wire' = wire \o w.o \o marks
          /\ UNCHANGED <<next, closing, rc, out, eof>>
RECURSIVE Read(_, _, _)
Read(c, o, q) ==
    IF q = <<>> \/ c.k = "end" THEN <<c, o, q>>
    ELSE LET t == q[1]
             c2 == CASE c.k = "slice" -> IF t[1] = "e" THEN [k |-> "e", s |-> 0, n |-> 1] ELSE [k |-> "h", s |-> t[2], n |-> t[3]]
                     [] c.k = "h"     -> [k |-> "data", s |-> c.s, n |-> c.n]
                     [] c.k = "data"  -> IF c.n = 1 THEN [k |-> "slice", s |-> 0, n |-> 0] ELSE [c EXCEPT !.n = @ - 1]
                     [] c.k = "e"     -> IF c.n = 2 THEN [k |-> "end", s |-> 0, n |-> 0] ELSE [c EXCEPT !.n = @ + 1]
         IN Read(c2, IF c.k = "data" THEN [o EXCEPT ![c.s] = Append(@, t)] ELSE o, Rest(q, 1))
Deserialise(n) ==
    /\ ~eof /\ n <= Len(wire)
    /\ LET r == Read(rc, out, Front(wire, n))
       IN rc' = r[1] /\ out' = r[2] /\ wire' = r[3] \o Rest(wire, n) /\ eof' = (r[1].k = "end")
    /\ UNCHANGED <<next, pend, cur, last, flushed, closing, marker>>
Next == \/ \E s \in S, n \in 1..Amount : Push(s, n)
        \/ Close
        \/ \E room \in 0..MaxRoom : Serialise(room)
        \/ \E n \in 1..MaxPiece : Deserialise(n)
Spec == Init /\ [][Next]_vars
(* a driver that keeps closing, writing and reading *)
Fair == Spec /\ WF_vars(Close) /\ WF_vars(Serialise(1)) /\ WF_vars(Deserialise(1))

Expected(s) == [i \in 1..(next[s] - 1) |-> <<"d", s, i>>]
InOrder == \A s \in S : /\ Len(out[s]) <= next[s] - 1 /\ out[s] = Front(Expected(s), Len(out[s]))
NothingLost == eof => \A s \in S : out[s] = Expected(s) /\ pend[s] = <<>>
OneMarker == eof => marker = 3 /\ wire = <<>>
(* neither sub-stream runs ahead by more than the allowed lag and one slice *)
Balanced == ~closing => \A s, o \in S : last[s] - last[o] <= Most(Variance + Chunk, Amount)
Waits == [][~closing => \A s, o \in S : last[s] - last[o] > Variance /\ last'[s] # last[s] => last'[o] # last[o]]_vars   \* nor is it served again before the other
MarkerLast == marker > 0 => cur = <<>> /\ \A s \in S : pend[s] = <<>>
(* with enough pending everywhere, room is used *)
MovesOn == [][\A room \in 1..MaxRoom : (Serialise(room) /\ ~closing /\ (\A s \in S : Len(pend[s]) >= Chunk)) => Len(wire') > Len(wire)]_vars
Finishes == <>eof
=============================================================================
