------------------------------- MODULE Buffers -------------------------------
(* The helpers everything is built on: an allocator that keeps one block back   *)
(* for the next request, a buffer that grows, and views of parts of a block.    *)
EXTENDS Naturals, Sequences, FiniteSets
NoBlock == [id |-> 0, cap |-> 0]
VARIABLES held,   (* the block kept back: [id, cap] or NoBlock                  *)
          lent,   (* blocks in the hands of the user                            *)
          last,   (* the last identity the base allocator gave out              *)
          grown,  (* the committed pieces: [k, a, b], bytes given by a formula  *)
          total, mine, room   (* of the growing buffer: bytes, its block, space lent for the next piece *)
bvars == <<held, lent, last, grown, total, mine, room>>
NoGrow == grown = <<>> /\ total = 0 /\ mine = NoBlock /\ room = 0
BInit == held = NoBlock /\ lent = {} /\ last = 0 /\ NoGrow
Fresh == held' = NoBlock /\ lent' = {} /\ last' = 0 /\ grown' = <<>> /\ total' = 0 /\ mine' = NoBlock /\ room' = 0

(* ---- the recycling allocator.  e.base: what it asked of the allocator below. *)
Asked(b, op, id, n) == b.op = op /\ b.id = id /\ b.n = n
Take(e) ==
  /\ e.shown = e.s /\ e.len = e.s /\ e.cap >= e.s
  /\ e.mode # "uninit" => e.zero
  /\ \A b \in lent : b.id # e.id
  /\ UNCHANGED <<grown, total, mine, room>>
  /\ \/ (* a new block, when there is none kept back that is large enough *)
        /\ e.mode = "base" \/ held = NoBlock \/ held.cap < e.s
        /\ Len(e.base) = 1 /\ Asked(e.base[1], "a", e.id, e.cap) /\ e.id > last
        /\ last' = e.id /\ lent' = lent \cup {[id |-> e.id, cap |-> e.cap]} /\ UNCHANGED held
     \/ (* the one kept back *)
        /\ e.mode # "base" /\ held # NoBlock /\ held.cap >= e.s /\ e.base = <<>>
        /\ e.id = held.id /\ e.cap = held.cap
        /\ held' = NoBlock /\ lent' = lent \cup {held} /\ UNCHANGED last
     \/ (* nothing is needed for nothing *)
        /\ e.mode # "base" /\ held = NoBlock /\ e.s = 0 /\ e.base = <<>> /\ e.id = 0 /\ e.cap = 0
        /\ UNCHANGED <<held, lent, last>>
Give(e) ==
  /\ e.intact /\ UNCHANGED <<last, grown, total, mine, room>>
  /\ IF e.id = 0 THEN e.base = <<>> /\ UNCHANGED <<held, lent>>
     ELSE \E b \in lent :
       /\ b.id = e.id /\ lent' = lent \ {b}
       /\ \/ e.mode = "base" /\ Len(e.base) = 1 /\ Asked(e.base[1], "f", b.id, b.cap) /\ UNCHANGED held
          \/ (* kept back instead of the smaller one before it *)
             /\ e.mode = "cache" /\ (held = NoBlock \/ b.cap >= held.cap) /\ held' = b
             /\ IF held = NoBlock THEN e.base = <<>> ELSE Len(e.base) = 1 /\ Asked(e.base[1], "f", held.id, held.cap)
          \/ (* no larger than the one kept back *)
             /\ e.mode = "cache" /\ (IF held = NoBlock THEN b.cap = 0 ELSE b.cap <= held.cap)
             /\ Len(e.base) = 1 /\ Asked(e.base[1], "f", b.id, b.cap) /\ UNCHANGED held
Clean(e) == /\ IF held = NoBlock THEN e.base = <<>> ELSE Len(e.base) = 1 /\ Asked(e.base[1], "f", held.id, held.cap)
            /\ held' = NoBlock /\ UNCHANGED <<lent, last, grown, total, mine, room>>
Swap(e) == e.base = <<>> /\ e.held = (IF held = NoBlock THEN 0 ELSE held.id) /\ UNCHANGED bvars
End == held = NoBlock /\ lent = {} /\ UNCHANGED bvars

(* ---- the growing buffer *)
Checkout(e) ==
  /\ e.n >= e.min /\ room' = e.n
  /\ UNCHANGED <<held, lent, grown, total>>
  /\ \/ e.base = <<>> /\ mine # NoBlock /\ mine.cap = total + e.n /\ UNCHANGED <<mine, last>>
     \/ /\ Len(e.base) = (IF mine = NoBlock THEN 1 ELSE 2)
        /\ e.base[1].op = "a" /\ e.base[1].id > last /\ e.base[1].n = total + e.n
        /\ mine' = [id |-> e.base[1].id, cap |-> e.base[1].n] /\ last' = e.base[1].id
        /\ mine # NoBlock => Asked(e.base[2], "f", mine.id, mine.cap)
Commit(e) == /\ e.k <= room /\ room' = 0 /\ total' = total + e.k
             /\ grown' = Append(grown, [at |-> total, k |-> e.k, a |-> e.a, b |-> e.b])
             /\ UNCHANGED <<held, lent, last, mine>>
Byte(p) == LET i == CHOOSE i \in DOMAIN grown : grown[i].at <= p /\ p < grown[i].at + grown[i].k
               g == grown[i]
               j == p - g.at
           IN (g.a * (j % 256) + g.b + 7 * (j \div 256)) % 256
Look(e) == /\ e.len = total /\ e.shown = total /\ e.none = (total = 0)
           /\ \A x \in DOMAIN e.at : e.got[x] = Byte(e.at[x])
           /\ UNCHANGED bvars
GFree(e) == /\ IF mine = NoBlock THEN e.base = <<>> ELSE Len(e.base) = 1 /\ Asked(e.base[1], "f", mine.id, mine.cap)
            /\ Fresh

(* ---- views *)
View(e) == e.len = e.n /\ e.got = SubSeq(e.data, e.lo + 1, e.lo + e.n) /\ UNCHANGED bvars
Poke(e) == e.after = [e.data EXCEPT ![e.lo + e.i + 1] = e.v] /\ UNCHANGED bvars
Parts(e) == e.glo = e.lo /\ e.gn = e.n /\ UNCHANGED bvars
(* a reference into an input that is in two halves: found when one half has all of it *)
Pair(e) == LET inSecond == e.lo >= e.cut
               inFirst == e.lo + e.n <= e.cut
           IN /\ e.ok = (inFirst \/ inSecond)
              /\ e.ok => e.got = SubSeq(e.data, e.lo + 1, e.lo + e.n)
              /\ UNCHANGED bvars
=============================================================================
