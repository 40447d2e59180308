----------------------------- MODULE RecodeBroken -----------------------------
(* Replays that are known to be wrong, to see that RecodeDesign tells. *)
EXTENDS RecodeDesign
TightSpace(s) == IF s.oi <= s.di THEN s.oi + Ring - s.di ELSE s.oi - s.di        \* the ring may be filled up: full looks like empty
FullFill(s, b) == LET n == MinOf(Len(b), Space(s)) IN <<Put(s, SubSeq(b, 1, n)), Len(b)>>   \* says it took all
OffNear(s, d, n) == [j \in 1..n |-> s.buf[(s.di + 2 * Ring - d + j - 2) % Ring]]          \* a repeat taken one off
TwiceDrain(s, room) == LET n == MinOf((s.di + Ring - s.oi) % Ring, room) IN                   \* gives the last byte again when room ran out
                  <<[s EXCEPT !.oi = IF n = room /\ n > 1 THEN (s.oi + n - 1) % Ring ELSE (s.oi + n) % Ring], [j \in 1..n |-> s.buf[(s.oi + j - 1) % Ring]], (s.oi + n) % Ring = s.di>>
=============================================================================
