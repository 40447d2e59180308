-------------------------------- MODULE Coder ---------------------------------
(* The entropy coder as a pipe of symbols, and what its models must be like        *)
(* whatever they have seen. Nothing here depends on which tables or which coding   *)
(* is used; Entropy says which.                                                    *)
EXTENDS Integers, Sequences, SequencesExt, TLC, IOUtils, Json
VARIABLE pipe          \* what went in, and whether its coding is complete
kvars == pipe
Fr == 15
KInit == pipe = [in |-> <<>>, n |-> 0, bytes |-> 0, open |-> FALSE]
Rising(c) == \A n \in 1..16 : c[n] > (IF n = 1 THEN 0 ELSE c[n - 1])
Apart(st, fr) == \A n \in 1..16 : st[n] >= 0 /\ fr[n] >= 1 /\ st[n] + fr[n] <= (IF n < 16 THEN st[n + 1] ELSE 2 ^ Fr)
(* runs: offset, symbol, start, freq of each stretch of offsets with the same meaning *)
Back(st, fr, runs) ==
   LET n == Len(runs) \div 4
       O(k) == IF k > n THEN 2 ^ Fr ELSE runs[4 * k - 3]
       Sy(k) == runs[4 * k - 2]
       A(t) == st[t + 1]
       Z(t) == st[t + 1] + fr[t + 1]
   IN /\ n >= 1 /\ O(1) = 0
      /\ \A k \in 1..n : /\ O(k) < O(k + 1) /\ Sy(k) \in 0..15
                         /\ runs[4 * k - 1] = A(Sy(k)) /\ runs[4 * k] = fr[Sy(k) + 1]
                         /\ \A t \in 0..15 : t = Sy(k) \/ A(t) >= O(k + 1) \/ Z(t) <= O(k)
Sound(c, mx, st, fr, runs) == Rising(c) /\ mx = c[16] /\ Apart(st, fr) /\ Back(st, fr, runs)
(* a row of a sweep: starts, freqs, then what the first and the last offset of each range stand for *)
SoundRow(r) == /\ Apart(SubSeq(r, 1, 16), SubSeq(r, 17, 32))
               /\ \A s \in 0..15 : r[33 + 2 * s] = s /\ r[34 + 2 * s] = s
------------------------------------------------------------------------------
Seen(c, mx, st, fr, runs) == Sound(c, mx, st, fr, runs) = TRUE /\ UNCHANGED kvars
AllSound(rows) == \A k \in 1..Len(rows) : SoundRow(rows[k])
Swept(rows) == AllSound(rows) = TRUE /\ UNCHANGED kvars
Open(n) == pipe' = [in |-> <<>>, n |-> n, bytes |-> 0, open |-> TRUE]
(* everything is accepted unchanged, and closing leaves finitely many bytes *)
Put(kept, n, bytes, s) == pipe.open /\ kept /\ n = pipe.n /\ Len(s) = n /\ pipe' = [in |-> s, n |-> n, bytes |-> bytes, open |-> FALSE]
(* whoever asks with the same models gets the same symbols, needs all bytes and no more *)
Got(short, used, s) == ~pipe.open /\ ~short /\ s = pipe.in /\ used = pipe.bytes /\ UNCHANGED kvars
=============================================================================
