------------------------------ MODULE AnsBroken -------------------------------
(* Coders that are known to be wrong, to see that AnsDesign tells. *)
EXTENDS AnsDesign
LateBack(z, r) ==                                   \* spills only once the state is past the limit
   LET lim == (L \div (2 ^ S)) * B * r[2]
       spill == z.a > lim
       x == IF spill THEN z.a \div B ELSE z.a
       y == ((x \div r[2]) * (2 ^ S)) + (x % r[2]) + r[1]
   IN [a |-> z.b, b |-> y, o |-> (IF spill THEN Cut(z.a % B, PIECES) ELSE <<>>) \o z.o]
OneState(z, r) ==                                   \* the states do not take turns
   LET lim == (L \div (2 ^ S)) * B * r[2]
       spill == z.a >= lim
       x == IF spill THEN z.a \div B ELSE z.a
       y == ((x \div r[2]) * (2 ^ S)) + (x % r[2]) + r[1]
   IN [a |-> y, b |-> z.b, o |-> (IF spill THEN Cut(z.a % B, PIECES) ELSE <<>>) \o z.o]
Swapped(rs) == IF rs = <<>> THEN <<>>               \* the states are written in the other order
             ELSE LET z == FoldLeft(PutBack, [a |-> L, b |-> L, o |-> <<>>], Reverse(rs)) IN Cut(z.a, SPIECES) \o Cut(z.b, SPIECES) \o z.o
=============================================================================
