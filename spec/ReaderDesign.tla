----------------------------- MODULE ReaderDesign -----------------------------
(***************************************************************************)
(* The reading adapter (GenReader in src/reader.rs) over a source that     *)
(* delivers as it likes and a codec that takes and gives as it likes: one  *)
(* step per turn of the loop in read().  Every byte that goes into the     *)
(* codec comes out as one byte, at some time; closing a compressor adds    *)
(* Tail bytes; a stream that ends after L bytes needs no closing, and    *)
(* one that is cut before (N < L) fails when closed.                     *)
(*                                                                         *)
(* Checked: the end is reported exactly when everything has come out, a    *)
(* cut stream and a broken source never look like an end, the reader never *)
(* gives more than asked, and reading on comes to an end.                  *)
(*                                                                         *)
(* What the loop depends on: a codec that leaves input behind has output   *)
(* to give on the next call (Keeps).  With Keeps = FALSE the model finds   *)
(* the end reported too early; TraceAdapter checks on the real code that   *)
(* it is not.                                                              *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS B,        \* room in the buffer
          Rooms,    \* sizes of the caller's reads
          Most,     \* bytes that go in, at most
          Tail, Fails, Keeps
VARIABLES sh,       \* what goes in: comp, n bytes, of these l the stream
          src,      \* delivered by the source
          broken,   \* the source has failed
          off, len, eof, flushed, err,             \* the fields of GenReader
          fed, pend, closed, fin,                  \* the codec: bytes in, ready to come out, closing, all given
          room, out, needs, at, got, res
vars == <<sh, src, broken, off, len, eof, flushed, err, fed, pend, closed, fin, room, out, needs, at, got, res>>
rd == <<off, len, eof, flushed, err>>
cd == <<fed, pend, closed, fin>>
N == sh.n
L == sh.l
Comp == sh.comp
Want == IF Comp THEN N + Tail ELSE L
Min(x, y) == IF x < y THEN x ELSE y
Init == /\ sh \in [comp : BOOLEAN, n : 0..Most, l : 1..(Most + 1)]
        /\ src = 0 /\ broken = FALSE /\ off = 0 /\ len = 0 /\ eof = FALSE /\ flushed = ~Comp /\ err = FALSE
        /\ fed = 0 /\ pend = 0 /\ closed = FALSE /\ fin = FALSE
        /\ room = 0 /\ out = 0 /\ needs = FALSE /\ at = "idle" /\ got = 0 /\ res = "none"
Call == /\ at = "idle" /\ res \in {"none", "some"}
        /\ \E r \in Rooms : room' = r
        /\ out' = 0 /\ needs' = FALSE /\ at' = "loop" /\ res' = "none"
        /\ UNCHANGED <<src, broken, got>> /\ UNCHANGED rd /\ UNCHANGED cd
Loop == /\ at = "loop"
        /\ IF out = 0 /\ (~needs \/ ~eof)
             THEN at' = (IF len < B /\ ~eof THEN "fill" ELSE "work") /\ UNCHANGED <<got, res>>
             ELSE at' = "idle" /\ got' = got + out /\ res' = (IF out = 0 THEN "end" ELSE "some")
        /\ UNCHANGED <<src, broken, room, out, needs>> /\ UNCHANGED rd /\ UNCHANGED cd
Fill == /\ at = "fill"
        /\ \/ \E k \in 1..(B - len) :
                /\ src + k <= N /\ ~broken
                /\ src' = src + k /\ len' = len + k /\ needs' = FALSE /\ at' = "work" /\ UNCHANGED <<eof, err, broken>>
           \/ src = N /\ ~broken /\ eof' = TRUE /\ at' = "work" /\ UNCHANGED <<src, len, needs, err, broken>>
           \/ at' = "loop" /\ UNCHANGED <<src, len, needs, eof, err, broken>>          \* interrupted
           \/ Fails /\ err' = TRUE /\ broken' = TRUE /\ eof' = TRUE /\ at' = "work" /\ UNCHANGED <<src, len, needs>>
        /\ UNCHANGED <<off, flushed, room, out, got, res>> /\ UNCHANGED cd
Front(o, l) == IF o = B THEN <<0, 0>> ELSE IF o + 2 > B /\ l - o < o THEN <<0, l - o>> ELSE <<o, l>>
(* what follows the codec's call in the loop; c taken, e given, r the answer *)
After(c, e, r) ==
    /\ out' = out + e
    /\ LET o == off + c IN
       IF len - o = 0 /\ err
         THEN /\ err' = FALSE /\ at' = "idle" /\ res' = "source" /\ UNCHANGED <<needs, got>>
              /\ off' = o /\ len' = len
         ELSE /\ err' = err
              /\ needs' = (needs \/ len - o = 0)
              /\ off' = (IF len - o = 0 THEN Front(o, len)[1] ELSE o)
              /\ len' = (IF len - o = 0 THEN Front(o, len)[2] ELSE len)
              /\ IF r = "fail" THEN at' = "idle" /\ res' = "data" /\ UNCHANGED got
                 ELSE IF r = "success" /\ ((eof /\ len - o = 0 /\ flushed') \/ (c = 0 /\ e = 0))
                 THEN at' = "idle" /\ got' = got + out + e /\ res' = (IF out + e = 0 THEN "end" ELSE "some")
                 ELSE at' = "loop" /\ UNCHANGED <<got, res>>
Close == /\ at = "work" /\ len - off = 0
         /\ flushed' = TRUE /\ closed' = TRUE
         /\ LET all == IF Comp THEN fed + Tail - got - out ELSE pend       \* all that was held back
                e == Min(all, room - out) IN
            /\ pend' = all - e
            /\ fin' = (all - e = 0)
            /\ fed' = fed
            /\ After(0, e, IF all - e > 0 THEN "more" ELSE IF Comp \/ fed >= L THEN "success" ELSE "fail")
         /\ UNCHANGED <<src, broken, room, eof>>
(* bytes of the stream come out as bytes of the data in Comp; held back till closing or not *)
Work == /\ at = "work" /\ len - off > 0
        /\ flushed' = flushed /\ closed' = closed
        /\ \E c \in 0..Min(len - off, IF Comp THEN N ELSE L - fed), g \in 0..(Most + 1) :
             /\ pend + g - pend <= fed + c - (got + out + pend) \/ g = 0       \* nothing comes out that did not go in
             /\ pend + g >= 0
             /\ LET all == pend + g
                    e == Min(all, room - out)
                    more == all - e > 0 IN
                \* a decompressor whose stream is complete has made all of it available
                /\ (~Comp /\ fed + c = L) => got + out + all = L
                /\ fed' = fed + c /\ pend' = all - e /\ fin' = FALSE
                \* taking only part of the input
                /\ (c < len - off /\ (Comp \/ fed + c < L)) => (more \/ (~Keeps /\ c + e > 0))
                /\ After(c, e, IF more THEN "more" ELSE IF ~Comp /\ fed + c = L THEN "success" ELSE "more")
        /\ UNCHANGED <<src, broken, room, eof>>
Next == UNCHANGED sh /\ (Call \/ Loop \/ Fill \/ Close \/ Work)
Spec == Init /\ [][Next]_vars /\ WF_vars(UNCHANGED sh /\ (Loop \/ Close \/ Work \/ Call))
             /\ SF_vars(UNCHANGED sh /\ Fill /\ at' = "work")
Sound == /\ got <= Want
         /\ out <= room
         /\ off <= len /\ len <= B
         /\ res = "end" => (got = Want /\ ~(~Comp /\ N < L) /\ (Comp => ~broken))
         /\ res = "data" => ~Comp /\ N < L
         /\ res = "source" => broken
Ends == <>(res \in {"end", "data", "source"})
=============================================================================
