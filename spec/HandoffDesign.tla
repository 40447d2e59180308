----------------------------- MODULE HandoffDesign -----------------------------
(* The two threads of the multi-threaded decoder and what is between them: one   *)
(* mutex, one condition variable with notify_one, and a count of waiters.  The   *)
(* main thread receives input, hands the bytes of the command stream over in     *)
(* buffers, takes back commands, emptied buffers and context maps, decodes       *)
(* literals itself; the worker turns bytes into commands.  Every critical        *)
(* section is one step; a wait gives up the lock and waking up is a step of its  *)
(* own.  Streams are all short sequences of                                      *)
(*   "-" half a command   "c" a copy   "l" a literal   "p" a prediction mode     *)
(*   "e" the end of commands   "x" a malformed command   "L" literal bytes       *)
(* cut into calls in every way, closed by the end marker or not.                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N,        \* longest stream
          CAP,      \* commands that fit between the threads
          Bytes     \* the alphabet in use
VARIABLES stream, closed,                                \* what arrives
          fed, dq, lq, out, pc, cbuf, ceof, lit, mycm, got, st, need, hand,   \* main thread
          data, cm, res, rdata, rcm, eofr, err, eod,     \* shared
          waiters, asleep, woken,                        \* condition variable
          wpc, slice, wtok, wbuf, wcm, stage,            \* worker
          done                                           \* commands carried out
main == <<fed, dq, lq, out, pc, cbuf, ceof, lit, mycm, got, st, need, hand>>
shared == <<data, cm, res, rdata, rcm, eofr, err, eod>>
cv == <<waiters, asleep, woken>>
work == <<wpc, slice, wtok, wbuf, wcm, stage>>
vars == <<stream, closed, main, shared, cv, work, done>>
given == <<stream, closed>>
None == "none"
Streams == UNION {[1..n -> Bytes] : n \in 0..N}
Init == /\ stream \in Streams /\ closed \in BOOLEAN
        /\ fed = 0 /\ dq = <<>> /\ lq = 0 /\ out = 0 /\ pc = "out" /\ cbuf = <<>> /\ ceof = FALSE /\ lit = FALSE
        /\ mycm = 0 /\ got = 0 /\ st = "ok" /\ need = FALSE /\ hand = 0
        /\ data = <<>> /\ cm = 2 /\ res = <<>> /\ rdata = 0 /\ rcm = 0 /\ eofr = "ok" /\ err = FALSE /\ eod = FALSE
        /\ waiters = 0 /\ asleep = {} /\ woken = {}
        /\ wpc = "run" /\ slice = [has |-> FALSE, b |-> <<>>] /\ wtok = None /\ wbuf = <<>> /\ wcm = 0 /\ stage = 0
        /\ done = <<>>
All == IF closed THEN Append(stream, "Z") ELSE stream       \* Z: the end marker with what follows it
zseen == closed /\ fed = Len(All)
Awake(t) == t \notin asleep /\ t \notin woken
(* ---- the condition variable *)
Notify == IF waiters # 0 /\ asleep # {}
          THEN \E t \in asleep : asleep' = asleep \ {t} /\ woken' = woken \cup {t} /\ UNCHANGED waiters
          ELSE UNCHANGED cv
Wait(t) == waiters' = waiters + 1 /\ asleep' = asleep \cup {t} /\ UNCHANGED woken
Wake(t) == t \in woken /\ woken' = woken \ {t} /\ waiters' = waiters - 1 /\ UNCHANGED <<asleep, given, main, shared, work, done>>
(* ---- the main thread *)
Cmds(s) == SelectSeq(s, LAMBDA b : b \notin {"L", "Z"})
Lits(s) == SelectSeq(s, LAMBDA b : b = "L")
Call == /\ pc = "out"
        /\ \E k \in 1..(Len(All) - fed) :
             LET x == SubSeq(All, fed + 1, fed + k) IN
             /\ fed' = fed + k /\ dq' = dq \o Cmds(x) /\ lq' = lq + Len(Lits(x))
        /\ pc' = "input" /\ UNCHANGED <<given, out, cbuf, ceof, lit, mycm, got, st, need, hand, shared, cv, work, done>>
Pushes == Len(data) < 2 /\ dq # <<>>
Input == /\ pc = "input" /\ Awake("m")
         /\ IF Pushes THEN data' = Append(data, dq) /\ dq' = <<>> /\ out' = out + 1 /\ pc' = "top" /\ Notify
            ELSE /\ UNCHANGED <<data, dq, out, cv>>
                 /\ pc' = IF dq # <<>> THEN (IF out = 0 THEN "out" ELSE "top") ELSE IF zseen \/ out > 0 THEN "top" ELSE "out"
         /\ UNCHANGED <<given, fed, lq, cbuf, ceof, lit, mycm, got, st, need, hand, cm, res, rdata, rcm, eofr, err, eod, work, done>>
Top == /\ pc = "top"
       /\ IF lit
          THEN /\ IF lq > 0 THEN lq' = lq - 1 /\ lit' = FALSE /\ done' = Append(done, "l") /\ UNCHANGED pc
                  ELSE pc' = (IF zseen THEN "failed" ELSE "out") /\ UNCHANGED <<lq, lit, done>>
               /\ UNCHANGED <<cbuf, mycm, hand>>
          ELSE IF cbuf = <<>>
          THEN pc' = (IF ceof THEN (IF zseen THEN "done" ELSE "out") ELSE IF out = 0 /\ zseen /\ dq = <<>> THEN "eod" ELSE "pull") /\ UNCHANGED <<lq, lit, done, cbuf, mycm, hand>>
          ELSE /\ cbuf' = Tail(cbuf) /\ lq' = lq
               /\ CASE Head(cbuf) = "l" -> lit' = TRUE /\ UNCHANGED <<pc, done, mycm, hand>>
                    [] Head(cbuf) = "p" -> pc' = "cm" /\ mycm' = mycm - 1 /\ hand' = 1 /\ UNCHANGED <<lit, done>>
                    [] OTHER -> done' = Append(done, Head(cbuf)) /\ UNCHANGED <<pc, lit, mycm, hand>>
       /\ UNCHANGED <<given, fed, dq, out, ceof, got, st, need, shared, cv, work>>
Eod == /\ pc = "eod" /\ Awake("m") /\ eod' = TRUE /\ Notify /\ pc' = "pull"
       /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, hand, data, cm, res, rdata, rcm, eofr, err, work, done>>
ResultReady == eofr # "ok" \/ res # <<>> \/ rdata > 0
Pull == /\ pc = "pull" /\ Awake("m")
        /\ IF ResultReady
           THEN /\ Notify /\ cbuf' = res /\ res' = <<>> /\ got' = rdata /\ rdata' = 0 /\ mycm' = mycm + rcm /\ rcm' = 0 /\ st' = eofr /\ need' = FALSE /\ pc' = "post"
           ELSE IF ~err THEN Wait("m") /\ UNCHANGED <<cbuf, res, got, rdata, mycm, rcm, st, need, pc>>
           ELSE pc' = "failed" /\ UNCHANGED <<cv, cbuf, res, got, rdata, mycm, rcm, st, need>>
        /\ UNCHANGED <<given, fed, dq, lq, out, ceof, lit, hand, data, cm, eofr, err, eod, work, done>>
Post == /\ pc = "post" /\ Awake("m")
        /\ IF got > 0
           THEN /\ got' = got - 1
                /\ IF Pushes THEN data' = Append(data, dq) /\ dq' = <<>> /\ out' = out /\ Notify /\ UNCHANGED need
                   ELSE /\ out' = out - 1 /\ UNCHANGED <<data, dq, cv>>
                        /\ need' = (need \/ (out = 1 /\ (dq # <<>> \/ ~zseen)))
                /\ UNCHANGED <<pc, ceof>>
           ELSE /\ pc' = IF st = "err" THEN "failed" ELSE IF need THEN "out" ELSE "top"
                /\ ceof' = (ceof \/ st = "eof") /\ UNCHANGED <<got, data, dq, out, need, cv>>
        /\ UNCHANGED <<given, fed, lq, cbuf, lit, mycm, st, hand, cm, res, rdata, rcm, eofr, err, eod, work, done>>
PushCm == /\ pc = "cm" /\ Awake("m")
          /\ IF cm < 2 THEN cm' = cm + 1 /\ hand' = 0 /\ pc' = "top" /\ done' = Append(done, "p") /\ Notify
             ELSE Wait("m") /\ UNCHANGED <<cm, hand, pc, done>>
          /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, data, res, rdata, rcm, eofr, err, eod, work>>
(* releasing the decoder between any two calls *)
Free == /\ pc \in {"out", "failed", "done"} /\ Awake("m") /\ pc' = "join" /\ eofr' = "err" /\ err' = TRUE /\ Notify
        /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, hand, data, cm, res, rdata, rcm, eod, work, done>>
Join == /\ pc = "join" /\ wpc = "exit" /\ pc' = "freed"
        /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, hand, shared, cv, work, done>>
(* ---- the worker *)
Op(b) == CASE b \in {"c", "l"} -> "push" [] b = "p" -> "pcm" [] b = "e" -> "weof" [] b = "x" -> "werr" [] OTHER -> "run"
Take == /\ wpc = "run" /\ slice.b # <<>>
        /\ LET b == Head(slice.b) r == Tail(slice.b) IN
           /\ slice' = [slice EXCEPT !.b = r] /\ wtok' = b
           /\ IF r = <<>> THEN wpc' = "back" /\ stage' = 1 ELSE wpc' = Op(b) /\ UNCHANGED stage
        /\ UNCHANGED <<given, main, shared, cv, wbuf, wcm, done>>
PullData == /\ wpc = "run" /\ slice.b = <<>> /\ Awake("w")
            /\ IF err THEN wpc' = "werr" /\ UNCHANGED <<data, slice, cv>>
               ELSE IF data # <<>> THEN slice' = [has |-> TRUE, b |-> Head(data)] /\ data' = Tail(data) /\ UNCHANGED <<wpc, cv>>
               ELSE IF eod THEN wpc' = "werr" /\ UNCHANGED <<data, slice, cv>>
               ELSE Wait("w") /\ UNCHANGED <<wpc, data, slice>>
            /\ UNCHANGED <<given, main, cm, res, rdata, rcm, eofr, err, eod, wtok, wbuf, wcm, stage, done>>
(* what has been gathered goes over, after the emptied buffer (stage 1) if there is one *)
Over(next, cms, last) ==
   IF stage = 1 /\ ~err /\ rdata = 2 THEN Wait("w") /\ UNCHANGED <<res, rdata, rcm, eofr, wbuf, wcm, slice, stage, wpc>>
   ELSE LET back == stage = 1 /\ ~err
            fits == Len(res) + Len(wbuf) <= CAP
        IN /\ rdata' = rdata + (IF back THEN 1 ELSE 0)
           /\ slice' = IF back THEN [slice EXCEPT !.has = FALSE] ELSE slice
           /\ IF fits THEN /\ res' = res \o wbuf /\ wbuf' = <<>> /\ rcm' = rcm + cms /\ wcm' = wcm - cms /\ stage' = 0 /\ wpc' = next
                           /\ eofr' = (IF last /\ eofr = "ok" THEN "eof" ELSE eofr) /\ Notify
              ELSE /\ stage' = 0 /\ UNCHANGED <<res, wbuf, rcm, wcm, eofr>>
                   /\ IF err THEN wpc' = "werr" /\ UNCHANGED cv
                      ELSE /\ UNCHANGED wpc   \* the buffer is over already, and that may have woken the main thread
                           /\ waiters' = waiters + 1
                           /\ IF back /\ waiters # 0 /\ asleep # {} THEN asleep' = {"w"} /\ woken' = woken \cup asleep
                              ELSE asleep' = asleep \cup {"w"} /\ UNCHANGED woken
Rest == UNCHANGED <<given, main, data, cm, err, eod, wtok, done>>
Back == wpc = "back" /\ Awake("w") /\ Over(Op(wtok), 0, FALSE) /\ Rest
PullCm == /\ wpc = "pcm" /\ Awake("w")
          /\ IF err THEN wpc' = "werr" /\ Notify /\ UNCHANGED <<cm, wcm>>
             ELSE IF cm > 0 THEN cm' = cm - 1 /\ wcm' = 1 /\ wpc' = "push" /\ Notify
             ELSE Wait("w") /\ UNCHANGED <<cm, wcm, wpc>>
          /\ UNCHANGED <<given, main, data, res, rdata, rcm, eofr, err, eod, slice, wtok, wbuf, stage, done>>
Push == /\ wpc = "push" /\ wbuf' = Append(wbuf, wtok)
        /\ \E force \in BOOLEAN : (wtok = "p" \/ Len(wbuf) + 1 = CAP => force) /\ wpc' = (IF force THEN "over" ELSE "run")
        /\ UNCHANGED <<given, main, shared, cv, slice, wtok, wcm, stage, done>>
Force == wpc = "over" /\ Awake("w") /\ Over("run", wcm, FALSE) /\ Rest
Weof == wpc = "weof" /\ Awake("w") /\ Over("exit", 0, TRUE) /\ Rest
Werr == /\ wpc = "werr" /\ Awake("w") /\ eofr' = "err" /\ err' = TRUE /\ Notify /\ wpc' = "exit"
        /\ UNCHANGED <<given, main, data, cm, res, rdata, rcm, eod, slice, wtok, wbuf, wcm, stage, done>>
Main == Input \/ Top \/ Eod \/ Pull \/ Post \/ PushCm \/ Join \/ Wake("m")
Worker == Take \/ PullData \/ Back \/ PullCm \/ Push \/ Force \/ Weof \/ Werr \/ Wake("w")
Next == Call \/ Free \/ Main \/ Worker
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Worker)
(* ---- what has to hold *)
Tokens == SelectSeq(stream, LAMBDA b : b \in {"c", "l", "p", "e", "x"})
Upto == LET ends == {k \in 1..Len(Tokens) : Tokens[k] \in {"e", "x"}} IN
        IF ends = {} THEN Len(Tokens) ELSE (CHOOSE k \in ends : \A j \in ends : k <= j) - 1
Before == SubSeq(Tokens, 1, Upto)
NeedL == Len(SelectSeq(Before, LAMBDA b : b = "l"))
HasL == Len(SelectSeq(stream, LAMBDA b : b = "L"))
Good == closed /\ Upto < Len(Tokens) /\ Tokens[Upto + 1] = "e" /\ NeedL <= HasL
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
InOrder == IsPrefix(done, Before)                                 \* nothing lost, repeated or reordered
OnlyGood == pc = "done" => Good /\ done = Before                  \* success means all of it
GoodSucceeds == (Good /\ pc = "failed") => FALSE                  \* and a good stream is never failed
Buffers == out = Len(data) + (IF slice.has THEN 1 ELSE 0) + rdata + got /\ rdata <= 2
ContextMaps == cm + wcm + rcm + mycm + hand = 2
WaitersCounted == waiters = Cardinality(asleep \cup woken) /\ asleep \cap woken = {}
NeverBothAsleep == asleep # {"m", "w"}
(* a call ends; after the last input a good stream is done; releasing ends *)
Resting == {"out", "failed", "done", "freed"}
CallsEnd == (pc \in {"input", "top", "eod", "pull", "post", "cm"}) ~> (pc \in Resting)
FreeEnds == (pc = "join") ~> (pc = "freed")
Finishes == (Good /\ fed = Len(All)) ~> (pc \in {"done", "join", "freed"})
=============================================================================
