------------------------------ MODULE LifeDesign ------------------------------
(* Where each borrowed block of the two-thread decoder is, from the first byte    *)
(* to the release, whenever the release comes: data buffers travel main -> queue   *)
(* -> worker -> queue -> main, context maps circle likewise.  The release tells    *)
(* the worker to give up, waits for it, and then empties the places one after the  *)
(* other; it must end, with every block back with the caller.                      *)
(* Flaw (to see that the model can tell): "nojoin" does not wait for the worker,   *)
(* "late" hands the worker's buffer to the queue after the queue was emptied.      *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Datas, Maps, Flaw
VARIABLES at, main, worker, err, todo
vars == <<at, main, worker, err, todo>>
Blocks == Datas \cup Maps
In(p) == {b \in Blocks : at[b] = p}
Move(b, p) == at' = [at EXCEPT ![b] = p]
MoveAll(s, p) == at' = [b \in Blocks |-> IF b \in s THEN p ELSE at[b]]
Order == <<"pred", "mux", "hand", "data", "rdata", "cm", "rcm", "slice", "wmap">>
Init == at = [b \in Blocks |-> "caller"] /\ main = "header" /\ worker = "none" /\ err = FALSE /\ todo = Order
(* ---- the thread with the input *)
Open == main = "header" /\ main' = "run" /\ worker' = "asked" /\ MoveAll(Maps, "cm") /\ UNCHANGED <<err, todo>>
Fill == main = "run" /\ In("mux") = {} /\ \E b \in Datas : at[b] = "caller" /\ Move(b, "mux") /\ UNCHANGED <<main, worker, err, todo>>
Push == main = "run" /\ Cardinality(In("data")) < 2 /\ \E b \in In("mux") : Move(b, "data") /\ UNCHANGED <<main, worker, err, todo>>
Pull == /\ main = "run" /\ In("hand") = {} /\ In("rdata") \cup In("rcm") # {}
        /\ at' = [b \in Blocks |-> IF at[b] = "rdata" THEN "hand" ELSE IF at[b] = "rcm" THEN "pred" ELSE at[b]]
        /\ UNCHANGED <<main, worker, err, todo>>
Back == main = "run" /\ \E b \in In("hand") : Move(b, IF In("mux") = {} THEN "mux" ELSE "caller") /\ UNCHANGED <<main, worker, err, todo>>
Recycle == main = "run" /\ \E b \in In("pred") : Move(b, "cm") /\ UNCHANGED <<main, worker, err, todo>>
ReleaseEarly == main = "header" /\ main' = "gone" /\ UNCHANGED <<at, worker, err, todo>>
Release == main = "run" /\ main' = "leaving" /\ err' = TRUE /\ UNCHANGED <<at, worker, todo>>
Joined == worker # "run" \/ Flaw = "nojoin"
Collect == /\ main = "leaving" /\ todo # <<>> /\ (todo = Order => Joined)
           /\ LET p == Head(todo) IN
              IF p = "slice" /\ Flaw = "late" THEN MoveAll(In("slice"), "rdata") ELSE MoveAll(In(p), "caller")
           /\ todo' = Tail(todo)
           /\ worker' = IF worker = "asked" THEN "done" ELSE worker     \* it finds nothing left to work on
           /\ UNCHANGED <<main, err>>
Gone == main = "leaving" /\ todo = <<>> /\ main' = "gone" /\ UNCHANGED <<at, worker, err, todo>>
(* ---- the worker *)
WStart == worker = "asked" /\ worker' = "run" /\ UNCHANGED <<at, main, err, todo>>
WTake == worker = "run" /\ ~err /\ In("slice") = {} /\ \E b \in In("data") : Move(b, "slice") /\ UNCHANGED <<main, worker, err, todo>>
WReturn == worker = "run" /\ (~err \/ Flaw = "nojoin") /\ Cardinality(In("rdata")) < 2 /\ \E b \in In("slice") : Move(b, "rdata") /\ UNCHANGED <<main, worker, err, todo>>
WMap == worker = "run" /\ ~err /\ In("wmap") = {} /\ \E b \in In("cm") : Move(b, "wmap") /\ UNCHANGED <<main, worker, err, todo>>
WSend == worker = "run" /\ (~err \/ Flaw = "nojoin") /\ \E b \in In("wmap") : Move(b, "rcm") /\ UNCHANGED <<main, worker, err, todo>>
WFinish == worker = "run" /\ ~err /\ worker' = "done" /\ UNCHANGED <<at, main, err, todo>>
WFail == worker = "run" /\ ~err /\ worker' = "done" /\ err' = TRUE /\ UNCHANGED <<at, main, todo>>
WGiveUp == worker = "run" /\ err /\ worker' = "done" /\ UNCHANGED <<at, main, err, todo>>
MainNext == Open \/ Fill \/ Push \/ Pull \/ Back \/ Recycle \/ ReleaseEarly \/ Release \/ Collect \/ Gone
WorkerNext == WStart \/ WTake \/ WReturn \/ WMap \/ WSend \/ WFinish \/ WFail \/ WGiveUp
Next == MainNext \/ WorkerNext
Spec == Init /\ [][Next]_vars /\ WF_vars(Collect) /\ WF_vars(Gone) /\ WF_vars(WStart) /\ WF_vars(WGiveUp)
(* ---- what must hold *)
Places == {"caller", "mux", "hand", "pred", "data", "rdata", "cm", "rcm", "slice", "wmap"}
TypeOK == at \in [Blocks -> Places] /\ main \in {"header", "run", "leaving", "gone"} /\ worker \in {"none", "asked", "run", "done"}
Room == Cardinality(In("data")) <= 2 /\ Cardinality(In("rdata")) <= 2 /\ Cardinality(In("slice")) <= 1 /\ Cardinality(In("mux")) <= 1
AllBack == main = "gone" => \A b \in Blocks : at[b] = "caller"
NoneLeft == main = "gone" => worker \in {"none", "done"}
Ends == main = "leaving" ~> main = "gone"
=============================================================================
