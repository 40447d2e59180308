----------------------------- MODULE TraceHandoff -----------------------------
(* Recorded operations on the real queue.  Step by step: an operation is issued  *)
(* ("inv"), and then it has returned ("ret") or its thread sleeps ("blk"); both   *)
(* are looked at again whenever the other thread has done something.  Race: two  *)
(* threads ran freely; there must be an order of their operations, not against   *)
(* the clock, in which every result is the one the queue would give.             *)
EXTENDS Handoff, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, q, pend, a, b, wt
vars == <<i, q, pend, a, b, wt>>
None == [op |-> "none"]
Free == [op |-> None, waits |-> FALSE]
Idle == [m |-> Free, w |-> Free, x |-> Free]
Is(name) == i <= Len(T) /\ T[i].ev = name /\ (i % 50 = 0 => PrintT(<<"AT", i>>))
Step == i' = i + 1 /\ a' = 0 /\ b' = 0 /\ wt' = FALSE
TInit == i = 1 /\ q = Fresh(1) /\ pend = Idle /\ a = 0 /\ b = 0 /\ wt = FALSE
TStart == Is("start") /\ Step /\ q' = Fresh(T[i].cap) /\ pend' = Idle
TCm == Is("cm") /\ Step /\ q' = [q EXCEPT !.cm = Append(q.cm, T[i].id)] /\ UNCHANGED pend
TInv == Is("inv") /\ Step /\ pend[T[i].th].op = None /\ pend' = [pend EXCEPT ![T[i].th] = [op |-> T[i].op, waits |-> FALSE]] /\ UNCHANGED q
TRet == /\ Is("ret") /\ Step /\ pend[T[i].th].op # None
        /\ \E o \in Outcomes(q, pend[T[i].th].op, pend[T[i].th].waits) : o.r = T[i].r /\ q' = o.q
        /\ pend' = [pend EXCEPT ![T[i].th] = Idle.m]
TBlk == /\ Is("blk") /\ Step /\ pend[T[i].th].op # None
        /\ \E p \in Waits(q, pend[T[i].th].op, pend[T[i].th].waits) : q' = p
        /\ pend' = [pend EXCEPT ![T[i].th].waits = TRUE]
(* ---- a race *)
RM == /\ Is("race") /\ a < Len(T[i].m)
      /\ LET e == T[i].m[a + 1] IN
         /\ b < Len(T[i].w) => T[i].w[b + 1].e > e.s
         /\ \E o \in Outcomes(q, e.op, FALSE) : o.r = e.r /\ q' = o.q
      /\ a' = a + 1 /\ UNCHANGED <<i, b, pend, wt>>
RW == /\ Is("race") /\ b < Len(T[i].w)
      /\ LET e == T[i].w[b + 1] IN
         /\ a < Len(T[i].m) => T[i].m[a + 1].e > e.s
         /\ \/ /\ \E o \in Outcomes(q, e.op, wt) : o.r = e.r /\ q' = o.q
               /\ b' = b + 1 /\ wt' = FALSE
            \/ ~wt /\ q' \in Waits(q, e.op, FALSE) /\ wt' = TRUE /\ b' = b
            \/ wt /\ q' \in Waits(q, e.op, TRUE) /\ q' # q /\ UNCHANGED <<b, wt>>
      /\ UNCHANGED <<i, a, pend>>
RDone == Is("race") /\ a = Len(T[i].m) /\ b = Len(T[i].w) /\ Step /\ UNCHANGED <<q, pend>>
TNext == TStart \/ TCm \/ TInv \/ TRet \/ TBlk \/ RM \/ RW \/ RDone
TSpec == TInit /\ [][TNext]_vars
Seen == TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"CONSUMED", TLCGet(1) - 1, Len(T)>>)
=============================================================================
