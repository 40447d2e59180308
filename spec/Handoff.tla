-------------------------------- MODULE Handoff --------------------------------
(* What lies between the two threads of the decoder, operation by operation: for *)
(* each operation the outcomes it may have now (new state and result), and       *)
(* whether it may have to wait.  "m": the thread with the input; "w": the worker *)
(* whose commands are gathered before they go over.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Fresh(cap) == [cap |-> cap, data |-> <<>>, cm |-> <<>>, res |-> <<>>, rdata |-> <<>>, rcm |-> <<>>,
               eofr |-> "ok", err |-> FALSE, eod |-> FALSE, buf |-> <<>>, bcm |-> <<>>, over |-> FALSE]
Pred == -1        \* how a prediction mode command shows in a batch: its map travels beside it
R(q, r) == [q |-> q, r |-> r]
Ok == [st |-> "ok"]
Fail == [st |-> "fail"]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Ready(q) == q.eofr # "ok" \/ q.res # <<>> \/ q.rdata # <<>>
(* ---- handing what was gathered over: first an emptied buffer d (<<>> or <<id>>), then the commands *)
Back(q, d) == IF d # <<>> /\ ~q.err THEN [q EXCEPT !.rdata = q.rdata \o d] ELSE q
BackWaits(q, d) == d # <<>> /\ ~q.err /\ Len(q.rdata) = 2
Fits(q) == Len(q.res) + Len(q.buf) <= q.cap
Gone(q, last) == [q EXCEPT !.res = q.res \o q.buf, !.buf = <<>>, !.rcm = q.rcm \o q.bcm, !.bcm = <<>>,
                           !.eofr = IF last /\ q.eofr = "ok" THEN "eof" ELSE q.eofr]
OverOutcomes(q, d, last) ==
  IF BackWaits(q, d) THEN {}
  ELSE LET p == Back(q, d) IN
       IF Fits(p) THEN {R(Gone(p, last), Ok)} ELSE IF p.err THEN {R(p, Fail)} ELSE {}
OverWaits(q, d) == BackWaits(q, d) \/ (~Fits(Back(q, d)) /\ ~q.err)
(* the state in which it waits: the emptied buffer is over already if there was room *)
OverWaiting(q, d) == IF BackWaits(q, d) THEN q ELSE [Back(q, d) EXCEPT !.over = TRUE]
(* ---- the operations *)
Gathered(q, op) == [q EXCEPT !.buf = Append(q.buf, IF op.op = "pred" THEN Pred ELSE op.id),
                             !.bcm = IF op.op = "pred" THEN Append(q.bcm, op.id) ELSE q.bcm]
Must(q, op) == op.op = "pred" \/ Len(q.buf) = q.cap      \* cannot be kept for later
(* an operation that waits has gathered its command already *)
Outcomes(q0, op, waiting) ==
  LET q == [q0 EXCEPT !.over = FALSE]     \* only the worker leaves that state
      d == IF waiting /\ q0.over THEN <<>> ELSE IF op.op = "consumed" THEN <<op.id>> ELSE <<>>
  IN CASE op.op = "push" -> {IF Len(q0.data) < 2 THEN R([q0 EXCEPT !.data = Append(q0.data, op.id)], Ok) ELSE R(q0, [st |-> "full"])}
       [] op.op = "pushcm" -> IF Len(q0.cm) < 2 THEN {R([q0 EXCEPT !.cm = Append(q0.cm, op.id)], Ok)} ELSE {}
       [] op.op = "pull" -> IF Ready(q0)
            THEN {R([q0 EXCEPT !.res = <<>>, !.rdata = <<>>, !.rcm = <<>>], [st |-> q0.eofr, cmds |-> q0.res, datas |-> q0.rdata, cms |-> q0.rcm])}
            ELSE {}
       [] op.op = "eod" -> {R([q0 EXCEPT !.eod = TRUE], Ok)}
       [] op.op = "err" -> {R([q0 EXCEPT !.eofr = "err", !.err = TRUE], Ok)}
       [] op.op = "pulldata" -> IF q.err THEN {R(q, [st |-> "err"])}
            ELSE IF q.data # <<>> THEN {R([q EXCEPT !.data = Tail(q.data)], [st |-> "data", id |-> Head(q.data)])}
            ELSE IF q.eod THEN {R(q, [st |-> "eof"])} ELSE {}
       [] op.op = "pullcm" -> IF q.err THEN {R(q, [st |-> "err"])}
            ELSE IF q.cm # <<>> THEN {R([q EXCEPT !.cm = Front(q.cm)], [st |-> "cm", id |-> q.cm[Len(q.cm)]])} ELSE {}
       [] op.op \in {"cmd", "pred"} ->
            LET g == IF waiting THEN q ELSE Gathered(q, op) IN
            OverOutcomes(g, <<>>, FALSE) \cup (IF waiting \/ Must(g, op) THEN {} ELSE {R(g, Ok)})
       [] op.op = "consumed" -> OverOutcomes(q, d, FALSE)
       [] op.op = "weof" -> OverOutcomes(q, <<>>, TRUE)
(* the states in which it may be found waiting *)
Waits(q0, op, waiting) ==
  LET q == [q0 EXCEPT !.over = FALSE]
      d == IF waiting /\ q0.over THEN <<>> ELSE IF op.op = "consumed" THEN <<op.id>> ELSE <<>>
  IN CASE op.op \in {"cmd", "pred"} -> LET g == IF waiting THEN q ELSE Gathered(q, op) IN IF OverWaits(g, <<>>) THEN {OverWaiting(g, <<>>)} ELSE {}
       [] op.op \in {"consumed", "weof"} -> IF OverWaits(q, d) THEN {IF waiting /\ q0.over THEN q0 ELSE OverWaiting(q, d)} ELSE {}
       [] OTHER -> IF Outcomes(q0, op, waiting) = {} THEN {q0} ELSE {}
=============================================================================
