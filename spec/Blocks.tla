-------------------------------- MODULE Blocks -------------------------------
(* What every allocator hands out: blocks of a backing store.  A slot is the *)
(* test program's name for a live block; off is its offset from the start of *)
(* the store, len the size asked for, val the byte its owner filled it with. *)
EXTENDS SeqOps
CONSTANT K                       \* number of slots
VARIABLE blk
Slots == 1..K
Free == [off |-> 0, len |-> 0, val |-> 0]
NoBlocks == [s \in Slots |-> Free]
IsLive(s) == blk[s].len > 0
Round8(n) == ((n + 7) \div 8) * 8
RECURSIVE SumLive(_, _)
SumLive(S, f) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f[s] + SumLive(S \ {s}, f)
\* [a, a+n) and [b, b+m) have nothing in common
Apart(a, n, b, m) == a + n <= b \/ b + m <= a
\* with h bytes of bookkeeping in front of each block
Disjoint(h) == \A s, t \in Slots : (s # t /\ IsLive(s) /\ IsLive(t)) =>
                   Apart(blk[s].off - h, blk[s].len + h, blk[t].off - h, blk[t].len + h)
Inside(size) == \A s \in Slots : IsLive(s) => (blk[s].off >= 0 /\ blk[s].off + blk[s].len <= size)
Aligned == \A s \in Slots : IsLive(s) => blk[s].off % 8 = 0
==============================================================================
