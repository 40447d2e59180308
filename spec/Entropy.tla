------------------------------- MODULE Entropy --------------------------------
(* The entropy coding the format fixes: how a model changes with each symbol, how  *)
(* two are mixed, which range stands for a symbol or a bit, how speeds are written *)
(* in the stream, and which bytes a sequence of ranges becomes.                    *)
EXTENDS Models, IOUtils, Json
ASSUME SC = 15 /\ NSYM = 16
VARIABLE ms            \* the models in use
evars == ms
EInit == ms = <<>>
Of(m) == IF m + 1 \in DOMAIN ms THEN ms[m + 1] ELSE Fresh0
Starts(c) == [n \in 1..16 |-> Start(c, n - 1)]
Freqs(c) == [n \in 1..16 |-> Freq(c, n - 1)]
(* exactly this table, these ranges, this reading of all offsets *)
Meaning(c, st, fr, runs) ==
   /\ st = Starts(c) /\ fr = Freqs(c)
   /\ LET n == Len(runs) \div 4 O(k) == IF k > n THEN Scale ELSE runs[4 * k - 3] IN
      /\ n >= 1 /\ O(1) = 0
      /\ \A k \in 1..n : /\ O(k) < O(k + 1)
                         /\ Find(c, O(k)) = runs[4 * k - 2] /\ Find(c, O(k + 1) - 1) = runs[4 * k - 2]    \* Find only rises
                         /\ runs[4 * k - 1] = st[runs[4 * k - 2] + 1] /\ runs[4 * k] = fr[runs[4 * k - 2] + 1]
Step(c, op) == Blend(c, op[1], op[2], op[3])
Ops(c, ops) == FoldLeft(LAMBDA d, k : Blend(d, ops[3 * k + 1], ops[3 * k + 2], ops[3 * k + 3]), c, [k \in 1..(Len(ops) \div 3) |-> k - 1])
Is_(c, cdf, mx) == cdf = c /\ mx = Total(c)
New == ms' = <<>>
Fresh(m, cdf, mx, st, fr, runs) ==
   /\ Is_(Fresh0, cdf, mx) /\ Meaning(Fresh0, st, fr, runs) /\ m = Len(ms) /\ ms' = Append(ms, Fresh0)
Seen(m, ops, cdf, mx, st, fr, runs) ==
   LET c == Ops(Of(m), ops) IN Is_(c, cdf, mx) /\ Meaning(c, st, fr, runs) /\ ms' = [ms EXCEPT ![m + 1] = c]
Mixed(a, b, w, cdf, mx, st, fr, runs) ==
   LET c == Average(Of(a), Of(b), w) IN Is_(c, cdf, mx) /\ Meaning(c, st, fr, runs) /\ UNCHANGED ms
(* a long history; after the steps whose total is congruent to r, the ranges of the model and of its mix with `o` *)
Row(c) == Starts(c) \o Freqs(c) \o [k \in 1..32 |-> (k - 1) \div 2]
Sweep(ops, oops, w, r, rows) ==
   LET o == Ops(Fresh0, oops)
       go == FoldLeft(LAMBDA z, k : LET c == Blend(z.c, ops[3 * k + 1], ops[3 * k + 2], ops[3 * k + 3]) IN
                          IF Total(c) % 8 # r THEN [z EXCEPT !.c = c]
                          ELSE [c |-> c, n |-> z.n + 2, ok |-> z.ok /\ z.n + 2 <= Len(rows) /\ rows[z.n + 1] = Row(c) /\ rows[z.n + 2] = Row(Average(c, o, w))],
                      [c |-> Fresh0, n |-> 0, ok |-> TRUE], [k \in 1..(Len(ops) \div 3) |-> k - 1])
   IN go.ok /\ go.n = Len(rows) /\ UNCHANGED ms
------------------------------------------------------------------------------
(* speeds as they are written: five bits of exponent, three of mantissa *)
Low(n, k) == n % (2 ^ k)
ToF8(v) == IF v = 0 THEN 0 ELSE LET l == BitLen(v) IN l * 8 + ((v - 2 ^ (l - 1)) * 8) \div (2 ^ (l - 1))
FromF8(d) == IF d < 8 THEN 0
             ELSE LET g == (d \div 8) - 1 l == IF g > 14 THEN 14 ELSE g IN 2 ^ l + (((d % 8) * 2 ^ l) \div 8)
Clamp(v, m) == IF v > m THEN m ELSE v
AllSpeeds(v) == \A k \in 0..((Len(v) \div 8) - 1) :
                  LET x == SubSeq(v, 8 * k + 1, 8 * k + 8) IN
                  /\ x[3] = ToF8(x[1]) /\ x[4] = ToF8(x[2])
                  /\ x[7] = Clamp(FromF8(x[5]), 7680) /\ x[8] = Clamp(FromF8(x[6]), 16384)
Speeds(v) == AllSpeeds(v) = TRUE /\ UNCHANGED ms
------------------------------------------------------------------------------
(* the bytes: blocks of 65536 symbols, each starting with two 64 bit states that take
   turns, then the 32 bit words a state needs when it falls under 2^31, in the order
   in which they are needed. Numbers are kept as five limbs of 15 bits. *)
BLOCK == 65536
St8(B, p) == <<B[p+1] + 256 * (B[p+2] % 128), (B[p+2] \div 128) + 2 * B[p+3] + 512 * (B[p+4] % 64),
               (B[p+4] \div 64) + 4 * B[p+5] + 1024 * (B[p+6] % 32), (B[p+6] \div 32) + 8 * B[p+7] + 2048 * (B[p+8] % 16), B[p+8] \div 16>>
Home == <<0, 0, 2, 0, 0>>      \* 2^31, where the states end
(* fr * (a shifted by 15) + add, with carries *)
Scaled(a, fr, add) ==
   LET l0 == fr * a[2] + add
       l1 == fr * a[3] + (l0 \div 32768)
       l2 == fr * a[4] + (l1 \div 32768)
       l3 == fr * a[5] + (l2 \div 32768)
   IN <<l0 % 32768, l1 % 32768, l2 % 32768, l3 % 32768, l3 \div 32768>>
Under(x) == x[5] = 0 /\ x[4] = 0 /\ x[3] < 2
Word(x, B, p) == LET v == x[1] + 32768 * (x[2] + 32768 * x[3]) IN
   <<B[p+1] + 256 * (B[p+2] % 128), (B[p+2] \div 128) + 2 * B[p+3] + 512 * (B[p+4] % 64),
     (B[p+4] \div 64) + 4 * (v % 8192), (v \div 8192) % 32768, v \div 268435456>>
Bit(p, b) == LET q == IF p = 0 THEN 1 ELSE p IN IF b = 0 THEN <<0, q * 128>> ELSE <<q * 128, (256 - q) * 128>>
Bytes(K, Sy, St, Fq, B) ==
   LET One(z, n) ==
         IF ~z.ok THEN z
         ELSE IF z.n = 0 /\ z.pos + 16 > Len(B) THEN [z EXCEPT !.ok = FALSE]
         ELSE LET new == z.n = 0
                  a == IF new THEN St8(B, z.pos) ELSE z.a
                  b == IF new THEN St8(B, z.pos + 8) ELSE z.b
                  p == IF new THEN z.pos + 16 ELSE z.pos
                  rg == IF K[n] < 0 THEN Bit(-1 - K[n], Sy[n]) ELSE <<St[n], Fq[n]>>
                  x == Scaled(a, rg[2], a[1] - rg[1])
                  w == Under(x)
              IN IF a[1] < rg[1] \/ a[1] >= rg[1] + rg[2] \/ (w /\ p + 4 > Len(B)) \/ (new /\ ~(a[5] < 8 /\ b[5] < 8)) THEN [z EXCEPT !.ok = FALSE]
                 ELSE LET y == IF w THEN Word(x, B, p) ELSE x q == IF w THEN p + 4 ELSE p
                          full == z.n = BLOCK - 1
                      IN [ok |-> full => (b = Home /\ y = Home), n |-> IF full THEN 0 ELSE z.n + 1, a |-> b, b |-> y, pos |-> q]
       end == FoldLeft(One, [ok |-> TRUE, n |-> 0, a |-> Home, b |-> Home, pos |-> 0], [n \in 1..Len(K) |-> n])
   IN /\ end.ok /\ end.pos = Len(B) /\ end.a = Home /\ end.b = Home
      /\ UNCHANGED ms
=============================================================================
