-------------------------------- MODULE Models --------------------------------
(* The adaptive models: tables of NSYM running sums over a scale of 2^SC.         *)
(* A model says which part of 0 .. 2^SC - 1 belongs to which symbol.              *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS SC, NSYM
Scale == 2 ^ SC
Fresh0 == [i \in 1..NSYM |-> 4 * i]
Total(c) == c[NSYM]
(* one more symbol s seen; when the total reaches the limit all shares shrink by a quarter *)
Blend(c, s, inc, lim) ==
   LET d == TLCEval([i \in 1..NSYM |-> IF i > s THEN c[i] + inc ELSE c[i]])
   IN IF d[NSYM] >= lim THEN TLCEval([i \in 1..NSYM |-> (d[i] + i) - ((d[i] + i) \div 4)]) ELSE d
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
(* w parts of a and Scale - w parts of b, on a common total of at most SC bits *)
Average(a, b, w) ==
   LET l == BitLen(Total(a) * Total(b)) sh == 2 ^ (IF l > SC THEN l - SC ELSE 0)
   IN TLCEval([i \in 1..NSYM |-> (((a[i] * Total(b)) \div sh) * w + ((b[i] * Total(a)) \div sh) * (Scale - w) + 1) \div Scale])
(* the end, on the scale, of the symbols up to s-1 (s from 1: of symbol s-1 itself) *)
Edge(c, n) == IF n = 0 THEN 0 ELSE (c[n] * Scale) \div Total(c)
Start(c, s) == Edge(c, s) + 1
Freq(c, s) == Edge(c, s + 1) - Edge(c, s) - 1
Find(c, off) == LET r == (off * Total(c)) \div Scale
                    hit == SelectInSeq(c, LAMBDA v : r < v)
                IN IF hit = 0 THEN NSYM - 1 ELSE hit - 1
------------------------------------------------------------------------------
(* what a model must be like, whatever it has seen *)
Gap(c, n) == IF n = 1 THEN c[1] ELSE c[n] - c[n - 1]
Positive(c) == \A n \in 1..NSYM : Gap(c, n) > 0
Shares(st, fr) == \A n \in 1..NSYM : /\ st[n] >= 0 /\ fr[n] >= 1
                                     /\ IF n < NSYM THEN st[n] + fr[n] <= st[n + 1] ELSE st[n] + fr[n] <= Scale
=============================================================================
