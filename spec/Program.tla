-------------------------------- MODULE Program --------------------------------
(* Programs of commands as a compressor takes them, and what decompressing its   *)
(* output has to give.  A long literal is given by a formula; any single byte of *)
(* the output can be computed without computing the others (At), so that         *)
(* programs of 2^24 bytes can be judged.                                         *)
EXTENDS Words, Integers
VARIABLE prog          \* [cmds, ends]: the commands and where the bytes of each end
PInit == prog = [cmds |-> <<>>, ends |-> <<0>>]
PatByte(c, j) == (c.a * (j % 256) + c.b + 7 * (j \div 256)) % 256
Size(c) == CASE c.k = "lit" -> Len(c.bytes) [] c.k = "pat" -> c.n [] c.k = "copy" -> c.n
             [] c.k = "dict" -> Len(Word(c.size, c.id, c.t)) [] OTHER -> 0
Ends(cs) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + Size(c)), <<0>>, cs)
Total == prog.ends[Len(prog.ends)]
(* the 0-based p-th byte the program denotes; before the start there are zeros *)
RECURSIVE At(_)
At(p) == IF p < 0 THEN 0
         ELSE LET k == CHOOSE x \in 1..Len(prog.cmds) : prog.ends[x] <= p /\ p < prog.ends[x + 1]
                  c == prog.cmds[k]
                  s == prog.ends[k]
              IN CASE c.k = "lit" -> c.bytes[p - s + 1]
                   [] c.k = "pat" -> PatByte(c, p - s)
                   [] c.k = "dict" -> Word(c.size, c.id, c.t)[p - s + 1]
                   [] c.k = "copy" -> At(s - c.d + ((p - s) % c.d))
(* the same for the whole of a short program *)
Back(h, d) == IF d <= Len(h) THEN SubSeq(h, Len(h) - d + 1, Len(h)) ELSE [j \in 1..(d - Len(h)) |-> 0] \o h
CopyBytes(h, d, n) == IF n = 0 THEN <<>> ELSE [j \in 1..n |-> LET p == Len(h) - d + 1 + ((j - 1) % d) IN IF p < 1 THEN 0 ELSE h[p]]
All == FoldLeft(LAMBDA h, c : CASE c.k = "lit" -> h \o c.bytes
                                [] c.k = "pat" -> h \o [j \in 1..c.n |-> PatByte(c, j - 1)]
                                [] c.k = "dict" -> h \o Word(c.size, c.id, c.t)
                                [] c.k = "copy" -> h \o CopyBytes(h, c.d, c.n)
                                [] OTHER -> h, <<>>, prog.cmds)
Load(cs) == prog' = [cmds |-> cs, ends |-> Ends(cs)]
(* decompressing the stream made of the program *)
Decoded(v, ate, total, full, out, at, got) ==
   /\ v = "OK" /\ ate /\ total = Total
   /\ IF full THEN out = All
      ELSE Len(got) = Len(at) /\ \A j \in 1..Len(at) : got[j] = At(at[j])
   /\ UNCHANGED prog
=============================================================================
