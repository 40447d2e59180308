-------------------------------- MODULE Words --------------------------------
(* The static dictionary of RFC 7932 and its transformations.                  *)
(* The data (Appendix A, CRC-32 5136cdaa; Appendix B, CRC-32 3d965f81) is in    *)
(* data/dictionary.json: words as one list of bytes, transformations as         *)
(* [p: prefix, k: kind, s: suffix], kinds numbered as in the RFC.               *)
EXTENDS Naturals, Sequences, SequencesExt, Functions, Bitwise, Json, IOUtils
D == JsonDeserialize(IOEnv.DICTIONARY)
SizeBits == <<0, 0, 0, 10, 10, 11, 11, 10, 10, 10, 10, 10, 9, 9, 8, 7, 7, 8, 7, 7, 6, 6, 5, 5>>
NWords(size) == 2 ^ SizeBits[size]
SizeOffset == [size \in 1..24 |-> FoldFunctionOnSet(LAMBDA a, b : a + b, 0,
                 [l \in 1..24 |-> IF l < 4 THEN 0 ELSE l * NWords(l)], 1..(size - 1))]
WordOK(size, id) == size \in 4..24 /\ id < NWords(size)
TransformOK(t) == t < 121
Flip(b, m) == IF m = 32 THEN IF (b \div 32) % 2 = 0 THEN b + 32 ELSE b - 32
              ELSE (b \div 8) * 8 + ((b % 8) ^^ 5)
(* the RFC's simplified upper case: one character of w starting at i (1-based); <<new w, step>> *)
UpperAt(w, i) == LET b == w[i] IN
   IF b < 192 THEN <<IF b \in 97..122 THEN [w EXCEPT ![i] = b - 32] ELSE w, 1>>
   ELSE IF b < 224 THEN <<IF i + 1 <= Len(w) THEN [w EXCEPT ![i + 1] = Flip(@, 32)] ELSE w, 2>>
   ELSE <<IF i + 2 <= Len(w) THEN [w EXCEPT ![i + 2] = Flip(@, 5)] ELSE w, 3>>
RECURSIVE UpperAll(_, _)
UpperAll(w, i) == IF i > Len(w) THEN w ELSE LET u == UpperAt(w, i) IN UpperAll(u[1], i + u[2])
Kind(k, w) == CASE k = 0 -> w
                [] k = 1 -> IF w = <<>> THEN w ELSE UpperAt(w, 1)[1]
                [] k = 2 -> UpperAll(w, 1)
                [] k \in 3..11 -> SubSeq(w, k - 1, Len(w))
                [] OTHER -> SubSeq(w, 1, Len(w) - (k - 11))
(* the bytes a dictionary command denotes *)
Word(size, id, t) == LET o == SizeOffset[size] + id * size
                         w == SubSeq(D.words, o + 1, o + size)
                         x == D.transforms[t + 1]
                     IN x.p \o Kind(x.k, w) \o x.s
=============================================================================
