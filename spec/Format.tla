-------------------------------- MODULE Format --------------------------------
(* The whole meaning of a stream, as a decoder reads it: which symbol comes next,  *)
(* under which model and with which range, how that model moves, what the symbols  *)
(* say, and the bytes they stand for.                                              *)
(*                                                                                 *)
(* An event x has x.cmd and x.lit, all that the two coders of a stream read: three *)
(* numbers for each symbol, the symbol and the start and length of its range; and  *)
(* x.out, the bytes the decoder made of it.                                        *)
EXTENDS Models, Words
ASSUME SC = 15 /\ NSYM = 16
C == JsonDeserialize(IOEnv.CONTEXTS)       \* RFC 7932, 7.1: lut0, lut1, lut2
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Up4(n) == (n + 3) \div 4                   \* nibbles needed for n bits
(* families of models on the command side, and how fast each learns *)
TYPE == 1  CSMALL == 2  CBEG == 3  CLAST == 4  CMAN == 5  DMNEM == 6  DBEG == 7  DLAST == 8  DMAN == 9
WSIZE == 10  WLAST == 11  WINDEX == 12  WTRANS == 13  BMNEM == 14  BLOW == 15  BHIGH == 16  BSTRIDE == 17
LSMALL == 18  LBEG == 19  LLAST == 20  LMAN == 21  PMODE == 22  PPAL == 23  PMNEM == 24  PHIGH == 25  PLOW == 26  PMIX == 27
NKINDS == 27
MUD == <<16, 8192>>  SLOW == <<32, 4096>>  MED == <<48, 16384>>  FAST == <<96, 16384>>  PLANE == <<128, 16384>>  ROCKET == <<384, 16384>>
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Fresh0
Put(f, k, c) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = c] ELSE f @@ (k :> c)
Learn(c, v, sp) == Blend(c, v, sp[1], sp[2])
Right(c, v, a, b) == v \in 0..15 /\ a = Start(c, v) /\ b = Freq(c, v)
(* the next command symbol; none left: the reading has failed *)
Read(x, s, kind, key, sp) ==
   LET q == 3 * s.n IN
   IF q + 3 > Len(x.cmd) THEN [s EXCEPT !.ok = FALSE, !.v = 14]
   ELSE LET v == x.cmd[q + 1] c == Get(s.m[kind], key)
            fine == Right(c, v, x.cmd[q + 2], x.cmd[q + 3])
        IN IF ~fine /\ PrintT(<<"SYMBOL", [n |-> s.n, kind |-> kind, key |-> key, v |-> v, has |-> <<x.cmd[q + 2], x.cmd[q + 3]>>, want |-> IF v \in 0..15 THEN <<Start(c, v), Freq(c, v)>> ELSE <<>>, fresh |-> c = Fresh0]>>) THEN [s EXCEPT !.ok = FALSE, !.v = v % 16]
           ELSE [s EXCEPT !.n = @ + 1, !.v = v, !.m[kind] = Put(@, key, Learn(c, v, sp))]
(* k symbols, the first under key0, the others under key1, as one number after `from` *)
Number(x, s, kind, key0, sp0, key1, sp1, from, k) ==
   FoldLeft(LAMBDA z, j : LET r == IF j = 1 THEN Read(x, z, kind, key0, sp0) ELSE Read(x, z, kind, key1, sp1)
                          IN [r EXCEPT !.val = @ + r.v * 16 ^ (k - j)],
            [s EXCEPT !.val = from], [j \in 1..k |-> j])
Kinds0 == [j \in 1..NKINDS |-> <<>>]
Lru4 == <<4, 11, 15, 16>>
Start0 == [ok |-> TRUE, done |-> FALSE, n |-> 0, k |-> 0, v |-> 0, val |-> 0, p |-> 0, from |-> 0, rev |-> FALSE,
           m |-> Kinds0, hi |-> [j \in 1..256 |-> <<>>], lo |-> [j \in 1..256 |-> <<>>], cmh |-> <<>>, cml |-> <<>>,
           l4 |-> 48, llen |-> 1, lru |-> Lru4,
           bl |-> <<0, 1>>, bc |-> <<0, 1>>, bd |-> <<0, 1>>, maxt |-> <<0, 0, 0>>,
           dmap |-> [j \in 1..1024 |-> 0], lmap |-> TLCEval([j \in 1..16384 |-> 0]), mask |-> TLCEval([j \in 1..8192 |-> 0]),
           mode |-> 0, mix |-> 0, lad |-> <<MUD, MUD, MUD, MUD>>, w |-> <<<<1, 1>>, <<1, 1>>>>, norm |-> <<16384, 16384>>]
(* the byte b before the last. A literal that starts in the first eight bytes of the
   window sees the eight bytes before it in the wrong order: the format has always been so *)
Back(x, s, b) == LET q == s.p - b r == IF s.rev /\ q <= s.from THEN s.from - 7 + (s.from - q) ELSE q IN IF r >= 1 THEN x.out[r] ELSE 0
------------------------------------------------------------------------------
(* literals *)
Context(x, s) == LET a == Back(x, s, 0) b == Back(x, s, 1)
                     sel == CASE s.mode = 0 -> a % 64 [] s.mode = 1 -> a \div 4
                              [] s.mode = 2 -> C.lut0[a + 1] | C.lut1[b + 1]
                              [] OTHER -> C.lut2[a + 1] * 8 + C.lut2[b + 1]
                 IN s.lmap[sel + 64 * s.bl[1] + 1]
Shift(n, k) == n \div (2 ^ k)
(* how much the two models count is learnt from how well each foresaw the symbol *)
Weigh(w, n0, n1, p) ==
   LET l == BitLen(Max2(w[1], w[2]))
       u == IF l > 24 THEN <<Shift(w[1], l - 24), Shift(w[2], l - 24)>> ELSE w
       k == BitLen(p * (Scale - p))
       New(wi, ni) == Max2(1, wi + ((Scale - p) * (ni - p)) \div (2 ^ (k - 15)))
   IN <<New(u[1], n0), New(u[2], n1)>>
Norm(w) == LET a == w[1] \div 2 b == w[2] \div 2      \* the sum may need 32 bits
               half == a + b + (((w[1] % 2) + (w[2] % 2)) \div 2)
               l == IF half = 0 THEN 1 ELSE 1 + BitLen(half)
               sh == Max2(l - 8, 0)
               tot == IF sh = 0 THEN w[1] + w[2] ELSE Shift(half, sh - 1)
           IN ((Shift(w[1], sh) * 256) \div tot) * 128
(* one half of a byte: `top` the half before it (0 for the high half) *)
Half(x, s, high, top, ctx, prev) ==
   LET o == IF high THEN s.mask[ctx + (prev \div 16) * 256 + 1] ELSE s.mask[4096 + ctx + top * 256 + 1]
       mm == o # 0 /\ o # 3
       d == IF o < 4 THEN 0 ELSE Min2(7, o ^^ 4)
       sb == Back(x, s, d)
       ia == IF ~mm THEN 0 ELSE IF o = 1 THEN 2 ELSE 1
       ib == IF high THEN (IF ~mm THEN 0 ELSE IF o = 1 THEN (sb \div 16) * 16 ELSE sb)
                     ELSE (IF mm THEN sb ELSE ctx)
       ic == IF high THEN ctx ELSE (IF o # 3 THEN top ELSE 0) + (IF o = 1 THEN (ctx % 16) * 16 ELSE 0)
       key == ia * 256 + ib
       model == Get(IF high THEN s.hi[ic + 1] ELSE s.lo[ic + 1], key)
       q == 3 * s.k
       mixing == s.mix >= 2
       ck == IF high THEN ctx ELSE top * 256 + ctx
       cm == Get(IF high THEN s.cmh ELSE s.cml, ck)
       side == IF high THEN 2 ELSE 1
       used == IF mixing THEN Average(cm, model, s.norm[side]) ELSE IF o = 2 THEN Fresh0 ELSE model
   IN IF q + 3 > Len(x.lit) THEN [s EXCEPT !.ok = FALSE]
      ELSE LET v == x.lit[q + 1] IN
      IF ~Right(used, v, x.lit[q + 2], x.lit[q + 3]) /\ PrintT(<<"LITERAL", [k |-> s.k, o |-> o, key |-> <<ia, ib, ic>>, ck |-> ck, v |-> v, mixing |-> mixing, has |-> <<x.lit[q + 2], x.lit[q + 3]>>, want |-> IF v \in 0..15 THEN <<Start(used, v), Freq(used, v)>> ELSE <<>>, w |-> s.w, norm |-> s.norm, p |-> s.p, mode |-> s.mode, mix |-> s.mix, lad |-> s.lad, ctx |-> ctx, prev |-> prev, bl |-> s.bl, l64 |-> SubSeq(s.lmap, 1, 64)]>>) THEN [s EXCEPT !.ok = FALSE]
      ELSE LET new == IF o = 2 THEN model ELSE Learn(model, v, s.lad[1])
               a == [s EXCEPT !.k = @ + 1, !.v = v]
               b == IF o = 2 THEN a ELSE IF high THEN [a EXCEPT !.hi[ic + 1] = Put(@, key, new)] ELSE [a EXCEPT !.lo[ic + 1] = Put(@, key, new)]
           IN IF ~mixing THEN b
              ELSE LET w == Weigh(s.w[side], Freq(cm, v), Freq(model, v), Freq(used, v)) IN
                   IF high THEN [b EXCEPT !.cmh = Put(@, ck, Learn(cm, v, s.lad[4])), !.w[2] = w, !.norm[2] = Norm(w)]
                           ELSE [b EXCEPT !.cml = Put(@, ck, Learn(cm, v, s.lad[3])), !.w[1] = w, !.norm[1] = Norm(w)]
Byte(x, s) ==
   IF ~s.ok THEN s
   ELSE IF s.p + 1 > Len(x.out) THEN [s EXCEPT !.ok = FALSE]
   ELSE LET ctx == Context(x, s) prev == Back(x, s, 0)
            h == Half(x, s, TRUE, 0, ctx, prev) IN
        IF ~h.ok THEN h
        ELSE LET l == Half(x, h, FALSE, h.v, ctx, prev) IN
             [l EXCEPT !.p = @ + 1, !.ok = @ /\ x.out[s.p + 1] = h.v * 16 + l.v]
Literal(x, s) ==
   LET t == s.bc[1]
       a == Read(x, s, LSMALL, t * 16, MED)
       b == IF a.v = 15 THEN Read(x, a, LSMALL, t * 16, MED) ELSE a      \* with no probabilities of its own
       c == IF b.v # 14 THEN [b EXCEPT !.val = b.v + 1, !.llen = b.v + 1]
            ELSE LET d == Read(x, b, LBEG, t, MUD) IN
                 IF d.v <= 1 THEN [d EXCEPT !.val = 15 + d.v]
                 ELSE LET e == IF d.v = 15 THEN Read(x, d, LLAST, t, MUD) ELSE d
                          bits == IF d.v = 15 THEN e.v + 14 ELSE d.v - 1
                          f == Number(x, e, LMAN, t, MUD, t, MUD, 2 ^ bits, Up4(bits))
                      IN [f EXCEPT !.val = f.val + 15, !.llen = f.val + 15]
   IN IF ~c.ok \/ c.val > Len(x.out) - c.p THEN [c EXCEPT !.ok = FALSE]
      ELSE FoldLeft(LAMBDA z, j : Byte(x, z), [c EXCEPT !.from = c.p, !.rev = c.p % (2 ^ x.w) < 8], [j \in 1..c.val |-> j])
------------------------------------------------------------------------------
(* copies *)
DKey(s, n) == s.dmap[s.bd[1] * 4 + Min2(Max2(n, 2) - 2, 3) + 1]
Recent(r, d) == IF d = r[2] THEN <<d, r[1], r[3], r[4]>>
                ELSE IF d = r[3] THEN <<d, r[1], r[2], r[4]>>
                ELSE IF d # r[1] THEN <<d, r[1], r[2], r[3]>>
                ELSE r
Copy(x, s) ==
   LET t == s.bc[1]
       a == Read(x, s, CSMALL, t * 64 + ((s.l4 \div 16) % 4) + 4 * Min2(s.llen - 1, 3), MUD)
       b == IF a.v < 15 THEN [a EXCEPT !.val = a.v]
            ELSE LET c == Read(x, a, CBEG, t, FAST)
                     d == IF c.v = 15 THEN Read(x, c, CLAST, t, FAST) ELSE c
                     clen == IF c.v = 15 THEN d.v + 19 ELSE d.v + 4
                 IN IF clen > 28 THEN [d EXCEPT !.ok = FALSE]
                    ELSE Number(x, d, CMAN, t * 64 + (clen % 4) + 1, SLOW, t * 64, SLOW, 2 ^ (clen - 1), Up4(clen - 1))
       n == b.val
       dp == DKey(s, n)
       m == Read(x, b, DMNEM, dp * 2 + (IF s.llen < 8 THEN 1 ELSE 0), SLOW)
       e == IF m.v < 4 THEN [m EXCEPT !.val = s.lru[m.v + 1]]
            ELSE IF m.v < 15 THEN LET base == s.lru[((m.v \div 2) % 2) + 1] off == m.v \div 4
                                  IN [m EXCEPT !.val = IF m.v % 2 = 1 THEN base - off ELSE base + off]
            ELSE LET f == Read(x, m, DBEG, dp * 64 + BitLen(n) \div 4, SLOW) IN
                 IF f.v = 15 THEN [f EXCEPT !.val = s.lru[2] - 3]
                 ELSE IF f.v = 0 THEN [f EXCEPT !.val = 1]
                 ELSE LET g == IF f.v = 14 THEN Read(x, f, DLAST, dp, ROCKET) ELSE f
                          bits == IF f.v = 14 THEN g.v + 14 ELSE g.v
                          ix == ((bits + 1) % 4) + 1
                      IN Number(x, g, DMAN, dp * 8 + ix, <<IF ix < 2 THEN 4 ELSE 64, 16384>>, dp * 8, <<4, 16384>>, 2 ^ bits, Up4(bits))
       d == e.val
   IN IF ~e.ok \/ d < 1 \/ n > Len(x.out) - e.p THEN [e EXCEPT !.ok = FALSE]
      ELSE LET same == (\A j \in 1..n : x.out[e.p + j] = IF e.p + j - d >= 1 THEN x.out[e.p + j - d] ELSE 0) = TRUE
           IN [e EXCEPT !.ok = same, !.p = @ + n, !.lru = Recent(@, d)]
------------------------------------------------------------------------------
(* words of the dictionary *)
Dict(x, s) ==
   LET t == s.bc[1]
       a == Read(x, s, WSIZE, t, MUD)
       b == IF a.v = 15 THEN Read(x, a, WLAST, t, MUD) ELSE a
       size == IF a.v = 15 THEN b.v + 19 ELSE b.v + 4
   IN IF ~b.ok \/ size > 24 THEN [b EXCEPT !.ok = FALSE]
      ELSE LET dp == DKey(s, size)
               bits == SizeBits[size]
               c == Number(x, b, WINDEX, dp * 8 + (bits % 4) + 1, MUD, dp * 8, MUD, 0, Up4(bits))
               h == Read(x, c, WTRANS, size \div 2, FAST)
               l == Read(x, h, WTRANS, 32 + h.v, FAST)
               tr == h.v * 16 + l.v
           IN IF ~l.ok \/ ~WordOK(size, c.val) \/ ~TransformOK(tr) THEN [l EXCEPT !.ok = FALSE]
              ELSE LET w == Word(size, c.val, tr) IN
                   [l EXCEPT !.p = @ + Len(w), !.ok = l.p + Len(w) <= Len(x.out) /\ SubSeq(x.out, l.p + 1, l.p + Len(w)) = w]
------------------------------------------------------------------------------
(* changes of block type: j is 0 for literals, 1 for commands, 2 for distances *)
Switch(x, s, j) ==
   LET now == IF j = 0 THEN s.bl ELSE IF j = 1 THEN s.bc ELSE s.bd
       a == Read(x, s, BMNEM, j, SLOW)
       l == Read(x, a, BLOW, j, SLOW)
       h == Read(x, l, BHIGH, j, SLOW)
       r == IF a.v = 15 THEN h ELSE a
       new == CASE a.v = 15 -> h.v * 16 + l.v [] a.v = 0 -> now[2] [] a.v = 1 -> (s.maxt[j + 1] + 1) % 256 [] OTHER -> a.v - 2
       pair == <<new, now[1]>>
       z == [r EXCEPT !.maxt[j + 1] = Max2(@, new)]
   IN IF j = 0 THEN LET q == Read(x, z, BSTRIDE, 0, SLOW) IN [q EXCEPT !.bl = pair]
      ELSE IF j = 1 THEN [z EXCEPT !.bc = pair] ELSE [z EXCEPT !.bd = pair]
------------------------------------------------------------------------------
(* prediction modes with their maps *)
F8(d) == IF d < 8 THEN 0 ELSE LET g == (d \div 8) - 1 l == Min2(g, 14) IN 2 ^ l + (((d % 8) * 2 ^ l) \div 8)
Lru13 == [j \in 1..13 |-> j - 1]
MaxOf(q) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, q)
ToFront(q, v) == LET at == SelectInSeq(q, LAMBDA u : u = v) IN
   IF at = 0 THEN <<v>> \o SubSeq(q, 1, 12) ELSE <<v>> \o SubSeq(q, 1, at - 1) \o SubSeq(q, at + 1, 13)
(* a map: entries until symbol 14; z.map, z.cl are kept beside the state *)
Entry(x, z, j) ==
   IF z.end \/ ~z.s.ok THEN z
   ELSE LET a == Read(x, z.s, PMNEM, j, MED) IN
        IF a.v = 14 THEN [z EXCEPT !.s = a, !.end = TRUE]
        ELSE LET h == Read(x, a, PHIGH, j, MED)
                 l == Read(x, h, PLOW, j, MED)
                 s == IF a.v = 15 THEN l ELSE a
                 v == IF a.v = 15 THEN h.v * 16 + l.v ELSE IF a.v = 13 THEN (MaxOf(z.cl) + 1) % 256 ELSE z.cl[a.v + 1]
             IN [z EXCEPT !.s = s, !.map = Append(@, v), !.cl = ToFront(@, v)]
Map(x, s, j, most) ==
   LET z == FoldLeft(LAMBDA y, k : Entry(x, y, j), [s |-> s, map |-> <<>>, cl |-> Lru13, end |-> FALSE], [k \in 1..Min2(most + 1, Len(x.cmd) \div 3) |-> k])
   IN IF ~z.end \/ Len(z.map) > most THEN [z EXCEPT !.s = [@ EXCEPT !.ok = FALSE]] ELSE z
Over(old, new) == IF new = <<>> THEN old ELSE TLCEval([j \in 1..Len(old) |-> IF j <= Len(new) THEN new[j] ELSE old[j]])
PredMode(x, s) ==
   LET a == Read(x, [s EXCEPT !.dmap = [j \in 1..1024 |-> (j - 1) % 4]], PMODE, 0, MED)
       b == Read(x, a, PPAL, 0, MED)
       c == Read(x, b, PPAL, 0, FAST)
       sp == FoldLeft(LAMBDA z, j : LET r == Read(x, z.s, PPAL, (j - 1) % 4, FAST) IN [s |-> r, q |-> Append(z.q, r.v)], [s |-> c, q |-> <<>>], [j \in 1..16 |-> j])
       V(j) == F8((sp.q[2 * j - 1] % 16) * 8 + sp.q[2 * j])
       Speed(j) == <<Min2(V(2 * j - 1), 7680), Min2(V(2 * j), 16384)>>
       lm == Map(x, sp.s, 0, 16384)
       dm == Map(x, lm.s, 1, 1024)
       mx == FoldLeft(LAMBDA z, j : IF ~z.s.ok THEN z ELSE LET r == Read(x, z.s, PMIX, IF j <= 256 THEN 16 ELSE z.q[j - 256], PLANE) IN [s |-> r, q |-> Append(z.q, r.v)],
                      [s |-> dm.s, q |-> <<>>], [j \in 1..8192 |-> j])
   IN IF ~a.ok \/ a.v > 3 \/ ~mx.s.ok THEN [mx.s EXCEPT !.ok = FALSE]
      ELSE [mx.s EXCEPT !.mode = a.v, !.mix = b.v % 4, !.lad = <<Speed(1), Speed(2), Speed(3), Speed(4)>>,
                        !.lmap = Over(@, lm.map), !.dmap = Over(@, dm.map), !.mask = mx.q]
------------------------------------------------------------------------------
Command(x, s) ==
   IF s.done \/ ~s.ok THEN s
   ELSE LET a == Read(x, s, TYPE, s.l4 \div 16, ROCKET)
            After(z, f) == [z EXCEPT !.l4 = z.l4 \div 4 + f]
        IN IF ~a.ok THEN a
           ELSE CASE a.v = 1 -> Copy(x, After(a, 64))
                  [] a.v = 2 -> Dict(x, After(a, 192))
                  [] a.v = 3 -> Literal(x, After(a, 128))
                  [] a.v \in 4..6 -> LET r == Switch(x, a, a.v - 4) IN After(r, 0)
                  [] a.v = 7 -> PredMode(x, a)
                  [] a.v = 15 -> [a EXCEPT !.done = TRUE]
                  [] OTHER -> [a EXCEPT !.ok = FALSE]
Reading(x) == FoldLeft(LAMBDA s, j : Command(x, s), Start0, [j \in 1..(Len(x.cmd) \div 3) |-> j])
Means(x) == LET s == Reading(x) IN
   IF s.ok /\ s.done /\ 3 * s.n = Len(x.cmd) /\ 3 * s.k = Len(x.lit) /\ s.p = Len(x.out) THEN TRUE
   ELSE PrintT(<<"FAILS AT", [ok |-> s.ok, done |-> s.done, n |-> s.n, k |-> s.k, p |-> s.p, v |-> s.v, val |-> s.val, l4 |-> s.l4]>>) /\ FALSE
=============================================================================
