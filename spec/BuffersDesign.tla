---------------------------- MODULE BuffersDesign ----------------------------
(* The recycling allocator of Buffers with every caller: whatever is taken and   *)
(* given back in whatever order, a block is in one place only, a cleaned         *)
(* allocator has nothing left, and the block kept back never shrinks by being    *)
(* offered another one.                                                          *)
EXTENDS Buffers
CONSTANTS Sizes, Most, Flaw
VARIABLES gone, big
dvars == <<bvars, gone, big>>
New(n) == [op |-> "a", id |-> last + 1, n |-> n]
Old(b) == [op |-> "f", id |-> b.id, n |-> b.cap]
(* what an implementation with one block in hand does *)
TakeOf(m, s) ==
  IF m # "base" /\ held.cap >= s
  THEN [mode |-> m, s |-> s, shown |-> s, len |-> s, id |-> held.id, cap |-> held.cap, zero |-> TRUE, base |-> <<>>]
  ELSE [mode |-> m, s |-> s, shown |-> s, len |-> s, id |-> last + 1, cap |-> s, zero |-> TRUE, base |-> <<New(s)>>]
GiveOf(m, b) ==
  [mode |-> m, id |-> b.id, intact |-> TRUE,
   base |-> IF m = "base" THEN <<Old(b)>>
            ELSE IF b.cap > held.cap THEN (IF held = NoBlock THEN <<>> ELSE <<Old(held)>>) ELSE <<Old(b)>>]
Freed(base) == {base[x].id : x \in {y \in DOMAIN base : base[y].op = "f"}}
Init == BInit /\ gone = {} /\ big = 0
Next ==
  \/ \E m \in {"clear", "uninit", "base"}, s \in Sizes :
       last < Most /\ Take(TakeOf(m, s)) /\ UNCHANGED gone /\ big' = held'.cap
  \/ \E m \in {"cache", "base"}, b \in lent :
       LET e == IF Flaw = "keepboth" /\ m = "cache" THEN [GiveOf(m, b) EXCEPT !.base = <<>>] ELSE GiveOf(m, b)
       IN /\ IF Flaw = "keepboth" THEN lent' = lent \ {b} /\ held' = b /\ UNCHANGED <<last, grown, total, mine, room>> ELSE Give(e)
          /\ gone' = gone \cup Freed(e.base) /\ big' = held'.cap
  \/ /\ Clean([base |-> IF held = NoBlock THEN <<>> ELSE <<Old(held)>>])
     /\ gone' = gone \cup (IF held = NoBlock THEN {} ELSE {held.id}) /\ big' = 0
Spec == Init /\ [][Next]_dvars
Places(n) == (IF held.id = n THEN 1 ELSE 0) + Cardinality({b \in lent : b.id = n}) + (IF n \in gone THEN 1 ELSE 0)
OnePlace == \A n \in 1 .. last : Places(n) = 1
Enough == \A b \in lent : b.cap \in Sizes
NeverSmaller == [][(held # NoBlock /\ held' # NoBlock) => held'.cap >= held.cap]_dvars
(* whatever the design does Buffers allows: no move of a caller is ever refused *)
Willing == /\ (last < Most => \A m \in {"clear", "uninit", "base"}, s \in Sizes : ENABLED Take(TakeOf(m, s)))
           /\ \A m \in {"cache", "base"}, b \in lent : ENABLED Give(GiveOf(m, b))
=============================================================================
