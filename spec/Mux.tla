---------------------------------- MODULE Mux ----------------------------------
(***************************************************************************)
(* Contract of the stream multiplexer: what is appended to the two         *)
(* sub-streams goes over one wire in slices and comes out again.           *)
(*   pend[s]  appended to s, not yet on the wire                           *)
(*   wcur     cursor of a reader over everything written so far            *)
(*   wire     written, not yet given to the demultiplexer                  *)
(*   rcur     cursor of the demultiplexer over what it was given           *)
(*   out[s]   handed out by the demultiplexer minus what was taken from it *)
(*   last[s]  payload bytes of all slices up to the latest slice of s      *)
(***************************************************************************)
EXTENDS Wire
VARIABLES pend, wcur, wire, rcur, out, last, total, closing
mvars == <<pend, wcur, wire, rcur, out, last, total, closing>>
S == {0, 1}
MStart == /\ pend' = Empty2 /\ wcur' = Between /\ wire' = <<>> /\ rcur' = Between /\ out' = Empty2
          /\ last' = [s \in S |-> 0] /\ total' = 0 /\ closing' = FALSE

Append_(s, bytes) ==
    /\ ~closing
    /\ pend' = [pend EXCEPT ![s] = @ \o bytes]
    /\ UNCHANGED <<wcur, wire, rcur, out, last, total, closing>>

Drop(q, n) == SubSeq(q, n + 1, Len(q))

RECURSIVE Sums(_, _, _, _)
Sums(order, i, l, t) == IF i > Len(order) THEN <<l, t>>
                        ELSE Sums(order, i + 1, [l EXCEPT ![order[i][1]] = t + order[i][2]], t + order[i][2])
Variance == 131073
BigSlice == 65536

(* writing `bytes` into room for `room` bytes; fin: nothing will be appended *)
(* any more and the end marker is wanted; eof: it is all out                 *)
Serialise(room, bytes, fin, eof) ==
    LET r == Scan(bytes, 1, wcur)
        sums == Sums(r.order, 1, last, total)
    IN /\ Len(bytes) <= room
       /\ closing => fin
       /\ closing' = (closing \/ fin)
       /\ r.cur.k # "bad" /\ r.at = Len(bytes) + 1           \* well formed, and nothing after the end
       /\ \A s \in S : IsPrefix(r.out[s], pend[s])           \* in order, nothing added
       /\ r.cur.k = "data" => r.cur.n <= Len(pend[r.cur.id]) - Len(r.out[r.cur.id])  \* no slice promises more than there is
       /\ pend' = [s \in S |-> Drop(pend[s], Len(r.out[s]))]
       /\ r.cur.k \in {"end1", "end2", "end"} => fin /\ \A s \in S : pend'[s] = <<>>   \* nothing lost
       /\ wcur' = r.cur
       /\ last' = sums[1] /\ total' = sums[2]
       /\ wire' = wire \o bytes
       /\ eof <=> r.cur = Ended
       \* it stops early only when it is done or too little is pending
       /\ Len(bytes) < room => IF fin THEN eof ELSE
              \A s \in S : Len(pend'[s]) < BigSlice \/ \E o \in S : last'[s] > last'[o] + Variance
       /\ UNCHANGED <<rcur, out>>

(* the demultiplexer is given the next bytes and uses `used` of them *)
Deserialise(bytes, used, eof) ==
    LET r == Scan(bytes, 1, rcur)
    IN /\ IsPrefix(bytes, wire)
       /\ used = r.at - 1                                    \* all of it, but nothing behind the end marker
       /\ r.cur.k # "bad"
       /\ rcur' = r.cur
       /\ out' = [s \in S |-> out[s] \o r.out[s]]
       /\ wire' = Drop(wire, used)
       /\ eof <=> (r.cur = Ended)
       /\ UNCHANGED <<pend, wcur, last, total, closing>>

(* what the demultiplexer says it has, and taking some of it *)
Ready(s, n) == n = Len(out[s]) /\ UNCHANGED mvars
Take(s, bytes) ==
    /\ IsPrefix(bytes, out[s])
    /\ out' = [out EXCEPT ![s] = Drop(@, Len(bytes))]
    /\ UNCHANGED <<pend, wcur, wire, rcur, last, total, closing>>

(* the end: everything written, everything read, everything taken *)
AllThrough == /\ wcur = Ended /\ rcur = Ended /\ wire = <<>>
              /\ \A s \in S : pend[s] = <<>> /\ out[s] = <<>>
Finished == AllThrough /\ UNCHANGED mvars
=============================================================================
