-------------------------------- MODULE Ledger --------------------------------
(* What a codec may do with the memory its caller lends it, over its whole life. *)
(* A block has an identity that is never used twice and a size; it is out from   *)
(* the moment the caller's allocator handed it over until it is given back       *)
(* whole.  When the release has returned nothing is out, nothing was written to  *)
(* after it was given back or beyond its ends, and no thread is left.            *)
EXTENDS Naturals, FiniteSets
VARIABLES phase, out, last
lvars == <<phase, out, last>>
LInit == phase = "none" /\ out = {} /\ last = 0
LNew == phase = "none" /\ phase' = "alive" /\ out' = {} /\ UNCHANGED last
LAlloc(id, n) == /\ phase \in {"alive", "leaving"} /\ id > last
                 /\ last' = id /\ out' = out \cup {<<id, n>>} /\ UNCHANGED phase
LFree(id, n) == /\ phase \in {"alive", "leaving"} /\ <<id, n>> \in out
                /\ out' = out \ {<<id, n>>} /\ UNCHANGED <<phase, last>>
LCall == phase = "alive" /\ UNCHANGED lvars
LRelease == phase = "alive" /\ phase' = "leaving" /\ UNCHANGED <<out, last>>
(* c: what the caller finds when the release has returned *)
Clean(c) == /\ c.threads = 0 /\ c.heap = 0 /\ c.live = 0 /\ c.dropped = 0
            /\ c.touched = 0 /\ c.over = 0 /\ c.unknown = 0 /\ c.wrong = 0
LGone(c) == phase = "leaving" /\ out = {} /\ Clean(c) /\ phase' = "none" /\ UNCHANGED <<out, last>>
=============================================================================
