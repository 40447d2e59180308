----------------------------- MODULE ModelBroken ------------------------------
(* Models that are known to be wrong, to see that ModelDesign tells. *)
EXTENDS ModelDesign
HardBlend(c0, s, inc, lim) ==                      \* shrinks without keeping the margin
   LET x == TLCEval([i \in 1..NSYM |-> IF i > s THEN c0[i] + inc ELSE c0[i]])
   IN IF x[NSYM] >= lim THEN TLCEval([i \in 1..NSYM |-> x[i] - (x[i] \div 4)]) ELSE x
NeverBlend(c0, s, inc, lim) == TLCEval([i \in 1..NSYM |-> IF i > s THEN c0[i] + inc ELSE c0[i]])   \* never shrinks: bounded here only by the constraint
OffFind(m, off) == LET r == (off * Total(m)) \div Scale                    \* the edge belongs to the symbol before
                       hit == SelectInSeq(m, LAMBDA v : r <= v)
                   IN IF hit = 0 THEN NSYM - 1 ELSE hit - 1
=============================================================================
