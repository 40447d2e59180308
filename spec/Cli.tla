---------------------------------- MODULE Cli ----------------------------------
(* The command line tool: which of its verbs a list of arguments means, and what  *)
(* an exit status may say about what it left behind.                             *)
EXTENDS Program
VARIABLE fs            \* name -> what is kept under it
cvars == <<fs, prog>>
Plain(k, l, d, m) == [k |-> k, len |-> l, dig |-> d, magic |-> m, olen |-> 0, odig |-> 0, slen |-> 0]
Nothing == Plain("missing", 0, 0, FALSE)
Dir == Plain("dir", 0, 0, FALSE)
CInit == fs = [n \in {"adir"} |-> Dir] /\ PInit
Of(n) == IF n \in DOMAIN fs THEN fs[n] ELSE Nothing
Keep(n, c) == fs' = (n :> c) @@ fs
Put(n, k, l, d, m) == Keep(n, Plain(k, l, d, m)) /\ UNCHANGED prog
Text(n, bad, l, d, cs) == Keep(n, Plain(IF bad THEN "badtext" ELSE "text", l, d, FALSE)) /\ Load(cs)
(* a part of a stream, or a stream with bits changed: it stands for the same data as the whole *)
Damage(from, to, l, d, m) == LET c == Of(from) IN
   /\ c.k = "stream"
   /\ Keep(to, [c EXCEPT !.k = IF l < c.len THEN "cut" ELSE "flipped", !.len = l, !.dig = d, !.magic = m, !.slen = c.len])
   /\ UNCHANGED prog
------------------------------------------------------------------------------
(* reading the arguments *)
Fresh == [comp |-> TRUE, raw |-> TRUE, force |-> FALSE, recode |-> FALSE, skip |-> FALSE, bench |-> 1, files |-> <<>>, dd |-> FALSE, ok |-> TRUE, over |-> FALSE]
One(a, x) ==
   IF ~a.ok \/ a.over THEN a
   ELSE IF x.o = "file" THEN [a EXCEPT !.files = Append(@, x.v), !.ok = Len(a.files) < 2]
   ELSE IF x.v = "junk" THEN [a EXCEPT !.ok = FALSE]
   ELSE CASE x.o = "--" -> [a EXCEPT !.dd = TRUE]
          [] x.o = "-d" -> [a EXCEPT !.comp = FALSE]
          [] x.o = "-i" -> [a EXCEPT !.comp = TRUE, !.raw = FALSE]
          [] x.o = "-c" -> [a EXCEPT !.comp = TRUE, !.raw = TRUE, !.force = TRUE]
          [] x.o = "-nobrotli" -> [a EXCEPT !.comp = TRUE, !.raw = TRUE]
          [] x.o = "--recode" -> [a EXCEPT !.recode = TRUE]
          [] x.o \in {"-skipcrc", "-nocrc"} -> [a EXCEPT !.skip = TRUE]
          [] x.o \in {"-benchmark", "-benchmark="} -> [a EXCEPT !.bench = x.n]
          [] x.v = "speed" -> [a EXCEPT !.ok = x.n < 16384 /\ x.m <= 16384]
          [] x.o = "-stride=" -> [a EXCEPT !.ok = x.n \in 1..8]
          [] x.o \in {"-h", "-help", "--help", "-v", "-version", "--version"} -> [a EXCEPT !.over = TRUE]
          [] OTHER -> a
Args(xs) == FoldLeft(One, Fresh, xs)
Verb(a, in) == IF a.comp /\ ~a.raw THEN "encodeir" ELSE IF a.comp THEN (IF a.force \/ ~in.magic THEN "compress" ELSE "auto")
               ELSE IF a.recode THEN "recode" ELSE "decompress"
(* whether the input is one the verb has a result for; "maybe" where nothing is promised *)
Suits(verb, in, skip) ==
   IF in.k \in {"missing", "dir", "nowhere"} THEN "no"
   ELSE CASE verb = "compress" -> "yes"
          [] verb = "encodeir" -> IF in.k = "text" THEN "yes" ELSE "no"
          [] verb = "recode" -> IF in.k = "text" THEN "yes" ELSE "no"
          [] OTHER -> CASE in.k = "stream" -> "yes"
                        [] in.k = "cut" -> IF verb = "decompress" /\ skip /\ in.len >= in.slen - 8 THEN "maybe" ELSE "no"
                        [] in.k = "flipped" -> IF verb = "decompress" /\ skip THEN "maybe" ELSE "no"
                        [] OTHER -> "no"
(* m is what the library's decoder makes of the result: verdict, all of it used, length, digest, bytes *)
Right(verb, in, len, dig, bytes, m) ==
   CASE verb = "compress" -> m.v = "OK" /\ m.all /\ m.len = in.len /\ m.dig = in.dig
     [] verb = "encodeir" -> m.v = "OK" /\ m.all /\ m.bytes = All
     [] verb = "recode" -> len = Total /\ bytes = SubSeq(All, 1, Len(bytes)) /\ (len <= 20000 => Len(bytes) = len)
     [] OTHER -> len = in.olen /\ dig = in.odig
Empty(verb, in) == CASE verb = "recode" -> Total = 0 [] verb \in {"decompress", "auto"} -> in.olen = 0 [] OTHER -> FALSE
Run(xs, stdin, snk, rc, to, len, dig, magic, bytes, m) ==
   LET a == Args(xs)
       in == IF a.files = <<>> THEN Of(stdin) ELSE Of(a.files[1])
       verb == Verb(a, in)
       out == IF Len(a.files) = 2 THEN Of(a.files[2]) ELSE Plain(snk, 0, 0, FALSE)
       opens == out.k \notin {"nowhere", "dir"} /\ (a.bench = 1 \/ Len(a.files) = 2)
       writes == out.k \notin {"full", "gone"} \/ Empty(verb, in)
       suits == Suits(verb, in, a.skip)
       good == a.ok /\ opens /\ writes /\ suits = "yes"
   IN /\ rc # -1                                    \* it came to an end
      /\ IF a.over /\ a.ok THEN rc = 0 ELSE
         /\ good => rc = 0
         /\ rc = 0 => good \/ (a.ok /\ opens /\ suits = "maybe")
         /\ (rc = 0 /\ good /\ out.k \notin {"full", "gone"}) => Right(verb, in, len, dig, bytes, m)
      /\ Keep(to, IF rc = 0 /\ good /\ verb \in {"compress", "encodeir"}
                  THEN [k |-> "stream", len |-> len, dig |-> dig, magic |-> magic, olen |-> m.len, odig |-> m.dig, slen |-> len]
                  ELSE IF to \in {"/dev/full", "nowhere/x", "adir"} THEN Of(to) ELSE Plain("left", len, dig, magic))
      /\ UNCHANGED prog
=============================================================================
