------------------------------- MODULE ObjPool -------------------------------
(* allocators/objpool: n cells of one size.                                  *)
EXTENDS Blocks
VARIABLES cells, osize           \* number of cells (0: no pool), size of one
pvars == <<blk, cells, osize>>
Init == blk = NoBlocks /\ cells = 0 /\ osize = 0
Exists == cells > 0
Live == {s \in Slots : IsLive(s)}
Avail == cells - SumLive(Live, [s \in Slots |-> 1])
Make(n, m, r) ==
    /\ ~Exists
    /\ IF r THEN cells' = n /\ osize' = m /\ n > 0 /\ m > 0 ELSE UNCHANGED <<cells, osize>>
    /\ UNCHANGED blk
\* a cell is handed out exactly while one is free, and comes zeroed
Alloc(s, off) ==
    /\ Exists /\ ~IsLive(s) /\ Avail > 0
    /\ blk' = [blk EXCEPT ![s] = [off |-> off, len |-> osize, val |-> 0]]
    /\ off >= 0 /\ off % 8 = 0 /\ off + osize <= cells * Round8(osize)
    /\ Disjoint(0)'
    /\ UNCHANGED <<cells, osize>>
Exhausted == Exists /\ Avail = 0 /\ UNCHANGED pvars
Write(s, v) == IsLive(s) /\ blk' = [blk EXCEPT ![s].val = v] /\ UNCHANGED <<cells, osize>>
Release(s) == Exists /\ IsLive(s) /\ blk' = [blk EXCEPT ![s] = Free] /\ UNCHANGED <<cells, osize>>
Foreign == Exists /\ UNCHANGED pvars      \* freeing what is not a cell does nothing
Clear == blk' = NoBlocks /\ cells' = 0 /\ osize' = 0
Safe == Disjoint(0) /\ Avail >= 0
==============================================================================
