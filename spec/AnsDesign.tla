------------------------------ MODULE AnsDesign -------------------------------
(* The coder on a small scale: ranges over 2^S slots, states in [L, L * 2^W),     *)
(* words of W bits sent as PIECES pieces, blocks of BLOCK symbols each written     *)
(* back to front with two states that take turns. The decoder takes one piece at   *)
(* a time and only asks for a word when it needs the state that lacks it.          *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS S, L, W, BLOCK, MAXLEN, RANGES, PIECES
ASSUME L % (2 ^ S) = 0
B == 2 ^ W
P == 2 ^ (W \div PIECES)       \* values of a piece
ASSUME P ^ PIECES = B
SPIECES == 2 * PIECES          \* pieces of a state
ASSUME L * B <= P ^ SPIECES
VARIABLES syms, phase, out, pos, taken, a, b, needA, needB, count, loading
vars == <<syms, phase, out, pos, taken, a, b, needA, needB, count, loading>>
(* how many more pieces state a needs are counted down in needA; needB only marks that a word is missing *)
Cut(v, n) == [k \in 1..n |-> (v \div (P ^ (k - 1))) % P]
(* writing *)
PutBack(z, r) ==
   LET lim == (L \div (2 ^ S)) * B * r[2]
       spill == z.a >= lim
       x == IF spill THEN z.a \div B ELSE z.a
       y == ((x \div r[2]) * (2 ^ S)) + (x % r[2]) + r[1]
   IN [a |-> z.b, b |-> y, o |-> (IF spill THEN Cut(z.a % B, PIECES) ELSE <<>>) \o z.o]
Block(rs) == IF rs = <<>> THEN <<>>
             ELSE LET z == FoldLeft(PutBack, [a |-> L, b |-> L, o |-> <<>>], Reverse(rs))
                  IN Cut(z.b, SPIECES) \o Cut(z.a, SPIECES) \o z.o
RECURSIVE Write(_)
Write(rs) == IF Len(rs) <= BLOCK THEN Block(rs) ELSE Block(SubSeq(rs, 1, BLOCK)) \o Write(SubSeq(rs, BLOCK + 1, Len(rs)))
(* reading *)
Init == /\ syms = <<>> /\ phase = "put" /\ out = <<>> /\ pos = 0 /\ taken = <<>>
        /\ a = 0 /\ b = 0 /\ needA = 2 * SPIECES /\ needB = FALSE /\ count = 0 /\ loading = TRUE
Put == /\ phase = "put" /\ Len(syms) < MAXLEN
       /\ \E r \in RANGES : syms' = Append(syms, <<r \div 10, r % 10>>)
       /\ UNCHANGED <<phase, out, pos, taken, a, b, needA, needB, count, loading>>
Close == /\ phase = "put" /\ phase' = "get" /\ out' = Write(syms)
         /\ UNCHANGED <<syms, pos, taken, a, b, needA, needB, count, loading>>
Done == Len(taken) = Len(syms)
Fill == /\ phase = "get" /\ ~Done /\ needA > 0 /\ pos < Len(out)
        /\ pos' = pos + 1 /\ needA' = needA - 1
        /\ LET v == out[pos + 1] IN
           IF loading      \* the two states of a new block
           THEN LET k == 2 * SPIECES - needA IN
                /\ loading' = (needA > 1)
                /\ a' = IF k < SPIECES THEN (IF k = 0 THEN 0 ELSE a) + v * (P ^ k) ELSE a
                /\ b' = IF k < SPIECES THEN (IF k = 0 THEN 0 ELSE b) ELSE b + v * (P ^ (k - SPIECES))
           ELSE /\ a' = (IF needA = PIECES THEN a * B ELSE a) + v * (P ^ (PIECES - needA)) /\ UNCHANGED <<b, loading>>
        /\ UNCHANGED <<syms, phase, out, taken, needB, count>>
Take == /\ phase = "get" /\ ~Done /\ needA = 0
        /\ LET r == syms[Len(taken) + 1] slot == a % (2 ^ S)
               good == slot >= r[1] /\ slot < r[1] + r[2]
               x == r[2] * (a \div (2 ^ S)) + slot - r[1]
               fresh == count = BLOCK - 1
           IN /\ taken' = Append(taken, IF good THEN r ELSE <<-1, slot>>)
              /\ b' = x /\ a' = b /\ needB' = (x < L /\ ~fresh) /\ needA' = IF fresh THEN 2 * SPIECES ELSE IF needB THEN PIECES ELSE 0
              /\ count' = (IF fresh THEN 0 ELSE count + 1) /\ loading' = fresh
        /\ UNCHANGED <<syms, phase, out, pos>>
Finish == phase = "get" /\ Done /\ phase' = "end" /\ UNCHANGED <<syms, out, pos, taken, a, b, needA, needB, count, loading>>
End == phase = "end" /\ UNCHANGED vars
Next == Put \/ Close \/ Fill \/ Take \/ Finish \/ End
Spec == Init /\ [][Next]_vars
(* no deadlock: the decoder never waits for a piece that does not come; and: *)
Undone == Len(taken) <= Len(syms) /\ taken = SubSeq(syms, 1, Len(taken))
AllUsed == phase = "end" => pos = Len(out)
InRange == phase = "get" /\ needA = 0 /\ ~Done => a >= L /\ a < L * B
(* at the end of a block both states are back at L *)
Home == Len(taken) > 0 /\ ((loading /\ needA = 2 * SPIECES) \/ phase = "end") => a = L /\ b = L
=============================================================================
