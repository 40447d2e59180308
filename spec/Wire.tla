--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The byte format of a divans stream, as a reader of it sees it:          *)
(*                                                                         *)
(*   stream  = header(16) slices end trailer(8)                            *)
(*   header  = ff e5 8c 9f  skip  window  0 ... 0                          *)
(*   slice   = id lo hi  <lo + 256 hi + 1 bytes>       with id in {0, 1}   *)
(*           | id + 16 k  <1024 * 4^k bytes>           with k in 1..       *)
(*   end     = ff fe ff                                                    *)
(*   trailer = CRC-32C of everything before it, little endian, "ans~"      *)
(*                                                                         *)
(* The slices of id 0 carry the command sub-stream, those of id 1 the      *)
(* literal sub-stream.  A cursor is what a reader has to remember between  *)
(* two bytes; Scan moves it over any piece of a stream.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Cursor(k, id, n) == [k |-> k, id |-> id, n |-> n]
Between == Cursor("slice", 0, 0)                 \* a slice or the end marker comes next
Ended   == Cursor("end", 0, 0)
Pow4(k) == CASE k = 1 -> 4 [] k = 2 -> 16 [] k = 3 -> 64 [] k = 4 -> 256 [] OTHER -> 1024

Least(a, b) == IF a < b THEN a ELSE b

(* what one header byte means in a well-formed stream *)
HeadByte(cur, b) ==
    CASE cur.k = "slice" ->
            IF b = 255 THEN Cursor("end1", 0, 0)
            ELSE IF b \in {0, 1} THEN Cursor("lo", b, 0)
            ELSE IF b >= 16 /\ b % 16 \in {0, 1} /\ b \div 16 <= 5 THEN Cursor("data", b % 16, 1024 * Pow4(b \div 16))
            ELSE Cursor("bad", 0, b)
      [] cur.k = "lo"   -> Cursor("hi", cur.id, b)
      [] cur.k = "hi"   -> Cursor("data", cur.id, cur.n + 256 * b + 1)
      [] cur.k = "end1" -> IF b = 254 THEN Cursor("end2", 0, 0) ELSE Cursor("bad", 0, b)
      [] cur.k = "end2" -> IF b = 255 THEN Ended ELSE Cursor("bad", 0, b)

(* the pieces of the two sub-streams found in bytes i.. of s, until s or the *)
(* stream ends.  acc: [cur, at, out: a sequence for each sub-stream, order:  *)
(* payload sizes of the slices begun, as <<id, n>>]                          *)
RECURSIVE Scan_(_, _, _, _, _)
Scan_(s, i, cur, out, order) ==
    IF i > Len(s) \/ cur.k \in {"end", "bad"} THEN [cur |-> cur, at |-> i, out |-> out, order |-> order]
    ELSE IF cur.k = "data" THEN
        LET n == Least(cur.n, Len(s) - i + 1)
            c2 == IF n = cur.n THEN Between ELSE Cursor("data", cur.id, cur.n - n)
        IN Scan_(s, i + n, c2, [out EXCEPT ![cur.id] = @ \o SubSeq(s, i, i + n - 1)], order)
    ELSE LET c2 == HeadByte(cur, s[i])
         IN Scan_(s, i + 1, c2, out, IF c2.k = "data" THEN Append(order, <<c2.id, c2.n>>) ELSE order)
Empty2 == [x \in {0, 1} |-> <<>>]
Scan(s, i, cur) == Scan_(s, i, cur, Empty2, <<>>)

-----------------------------------------------------------------------------
(* CRC-32C (Castagnoli), reflected, on pairs of 16-bit halves: an integer of *)
(* TLC has 32 bits including the sign                                        *)
Poly == [hi |-> 33526, lo |-> 15224]                  \* 82F6 3B78
Half(c) == [hi |-> c.hi \div 2, lo |-> (c.lo \div 2) + 32768 * (c.hi % 2)]
Xor2(c, d) == [hi |-> c.hi ^^ d.hi, lo |-> c.lo ^^ d.lo]
Shift1(c) == IF c.lo % 2 = 1 THEN Xor2(Half(c), Poly) ELSE Half(c)
Table == [b \in 0..255 |-> LET z == [hi |-> 0, lo |-> b]
                           IN Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(Shift1(z))))))))]
CrcByte(c, b) == LET t == Table[(c.lo % 256) ^^ b]
                 IN [hi |-> (c.hi \div 256) ^^ t.hi, lo |-> ((c.lo \div 256) + 256 * (c.hi % 256)) ^^ t.lo]
CrcInit == [hi |-> 65535, lo |-> 65535]
Crc(s, n) == LET c == FoldLeft(CrcByte, CrcInit, SubSeq(s, 1, n)) IN [hi |-> 65535 - c.hi, lo |-> 65535 - c.lo]
CrcBytes(c) == <<c.lo % 256, c.lo \div 256, c.hi % 256, c.hi \div 256>>

Magic == <<255, 229, 140, 159>>
Tag == <<97, 110, 115, 126>>                          \* "ans~"
HeaderOk(s, w) == /\ Len(s) >= 16
                  /\ SubSeq(s, 1, 4) = Magic
                  /\ s[5] = 0 /\ s[6] = w /\ \A j \in 7..16 : s[j] = 0
                  /\ w \in 10..24

(* a whole stream, nothing before and nothing after *)
WholeStream(s, w) ==
    /\ HeaderOk(s, w)
    /\ LET r == Scan(s, 17, Between)
       IN /\ r.cur = Ended
          /\ Len(s) = r.at + 7
          /\ SubSeq(s, r.at, r.at + 3) = CrcBytes(Crc(s, r.at - 1))
          /\ SubSeq(s, r.at + 4, r.at + 7) = Tag
Substreams(s) == Scan(s, 17, Between).out
=============================================================================
