----------------------------- MODULE ModelDesign ------------------------------
(* The models on a small scale: every table that some history of updates at any   *)
(* speed can lead to, and every mix of such a table with an extreme one. Limits    *)
(* stand to the scale as in the code: LIMMAX = Scale / 2, increments below half    *)
(* of that (less the biases). What is checked is what the coder relies on: every symbol keeps a      *)
(* non-empty part, the parts are disjoint, and each of their points leads back.    *)
EXTENDS Models
CONSTANTS INCMAX, INCS, LIMS
VARIABLES c, d, w
vars == <<c, d, w>>
Init == c = Fresh0 /\ d = Fresh0 /\ w = 0
Extremes == { Fresh0, [i \in 1..NSYM |-> IF i = NSYM THEN 3 * (Scale \div 8) ELSE 3 * i],
              [i \in 1..NSYM |-> 3 * (Scale \div 8) - 3 * (NSYM - i)],
              [i \in 1..NSYM |-> IF i = NSYM THEN (Scale \div 2) - 1 ELSE 3 * i] }
See == d = Fresh0 /\ w = 0 /\ \E s \in 0..NSYM-1, inc \in INCS, lim \in LIMS : c' = Blend(c, s, inc, lim) /\ UNCHANGED <<d, w>>
Mix == w = 0 /\ \E e \in Extremes, x \in {1, Scale \div 4, Scale \div 2, Scale - 1, Scale} : d' = e /\ w' = x /\ UNCHANGED c
Next == See \/ Mix
Spec == Init /\ [][Next]_vars
Good(m) == /\ Positive(m)
           /\ Shares([n \in 1..NSYM |-> Start(m, n - 1)], [n \in 1..NSYM |-> Freq(m, n - 1)])
           /\ \A s \in 0..NSYM-1 : \A off \in Start(m, s)..(Start(m, s) + Freq(m, s) - 1) : Find(m, off) = s
Usable == Good(c) /\ (w # 0 => Good(Average(c, d, w)) /\ Good(Average(d, c, w)))
(* nothing wraps, although a table may stay above its limit: shrinking by a quarter
   after each step holds the total to 3 * (INCMAX + NSYM) *)
Small == (Total(c) <= 3 * (INCMAX + NSYM) \/ Total(c) <= Scale \div 2) /\ Total(c) + INCMAX + NSYM < Scale
Wide == \A n \in 1..NSYM : Gap(c, n) >= 3        \* the margin that survives shrinking
=============================================================================
