-------------------------------- MODULE Region -------------------------------
(* allocators/region: blocks are carved off one store and never given back   *)
(* one by one; clearing gives everything back.                               *)
EXTENDS Blocks
VARIABLES size, rem              \* bytes of the store (0: no region), bytes still available
rvars == <<blk, size, rem>>
Init == blk = NoBlocks /\ size = 0 /\ rem = 0
Exists == size > 0
\* up to 7 bytes are unusable, so that blocks are aligned
Make(n, avail) ==
    /\ ~Exists
    /\ IF n = 0 \/ Huge(n) THEN size' = 0 /\ rem' = 0
       ELSE size' = n /\ rem' = avail /\ avail <= n /\ avail > n - 8 /\ avail % 8 = 0
    /\ UNCHANGED blk
Fits(n) == ~Huge(n) /\ n > 0 /\ Round8(n) <= rem
Alloc(s, n, off) ==
    /\ Exists /\ ~IsLive(s) /\ Fits(n)
    /\ blk' = [blk EXCEPT ![s] = [off |-> off, len |-> n, val |-> 0]]
    /\ rem' = rem - Round8(n)
    /\ UNCHANGED size
    /\ Disjoint(0)' /\ Inside(size)' /\ off % 8 = 0
Refuse(n) == Exists /\ ~Fits(n) /\ UNCHANGED rvars
Write(s, v) == IsLive(s) /\ blk' = [blk EXCEPT ![s].val = v] /\ UNCHANGED <<size, rem>>
Clear == blk' = NoBlocks /\ size' = 0 /\ rem' = 0
Safe == Disjoint(0) /\ Inside(size) /\ Aligned /\ rem + SumLive({s \in Slots : IsLive(s)}, [s \in Slots |-> Round8(blk[s].len)]) <= size
==============================================================================
