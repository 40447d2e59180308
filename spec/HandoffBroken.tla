---------------------------- MODULE HandoffBroken -----------------------------
(* Hand-overs that are known to be wrong, to see that HandoffDesign tells:       *)
(* a configuration puts one of these in place of what is there.                  *)
EXTENDS HandoffDesign
Silent == UNCHANGED cv                                            \* nobody is told of a change
Uncounted(t) == asleep' = asleep \cup {t} /\ UNCHANGED <<waiters, woken>>    \* goes to sleep without saying so
DeafFree == /\ pc \in {"out", "failed", "done"} /\ Awake("m") /\ pc' = "join" /\ eofr' = "err" /\ err' = TRUE /\ UNCHANGED cv
            /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, hand, data, cm, res, rdata, rcm, eod, work, done>>
NoEod == /\ pc = "eod" /\ Awake("m") /\ pc' = "pull" /\ UNCHANGED <<given, fed, dq, lq, out, cbuf, ceof, lit, mycm, got, st, need, hand, shared, cv, work, done>>
(* takes commands without taking them away *)
TwicePull ==
        /\ pc = "pull" /\ Awake("m")
        /\ IF ResultReady
           THEN /\ Notify /\ cbuf' = res /\ res' = res /\ got' = rdata /\ rdata' = 0 /\ mycm' = mycm + rcm /\ rcm' = 0 /\ st' = eofr /\ need' = FALSE /\ pc' = "post"
           ELSE IF ~err THEN Wait("m") /\ UNCHANGED <<cbuf, res, got, rdata, mycm, rcm, st, need, pc>>
           ELSE pc' = "failed" /\ UNCHANGED <<cv, cbuf, res, got, rdata, mycm, rcm, st, need>>
        /\ UNCHANGED <<given, fed, dq, lq, out, ceof, lit, hand, data, cm, eofr, err, eod, work, done>>
=============================================================================
