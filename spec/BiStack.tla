------------------------------- MODULE BiStack -------------------------------
(* allocators/bistack: two stacks growing towards each other in one store.   *)
EXTENDS Blocks
VARIABLES size, margin, side     \* side[s] = the stack a live block belongs to
bvars == <<blk, size, margin, side>>
Init == blk = NoBlocks /\ size = 0 /\ margin = 0 /\ side = [s \in Slots |-> "-"]
Exists == size > 0
\* an initial store of n bytes offers (all but at most 7 of) them
Offered(n, avail) == size' = n /\ margin' = avail /\ avail <= n /\ avail > n - 8
Make(n, avail, r) ==
    /\ ~Exists
    /\ IF r THEN n > 0 /\ Offered(n, avail) ELSE (n = 0 \/ Huge(n)) /\ size' = 0 /\ margin' = 0
    /\ UNCHANGED <<blk, side>>
Fits(n) == ~Huge(n) /\ Round8(n) <= margin
Alloc(d, s, n, off) ==
    /\ Exists /\ ~IsLive(s) /\ Fits(n) /\ n > 0
    /\ blk' = [blk EXCEPT ![s] = [off |-> off, len |-> n, val |-> -1]]   \* contents are up to the owner
    /\ side' = [side EXCEPT ![s] = d]
    /\ margin' = margin - Round8(n)
    /\ UNCHANGED size
    /\ Disjoint(0)' /\ Inside(size)' /\ off % 8 = 0
Refuse(n) == Exists /\ (n = 0 \/ ~Fits(n)) /\ UNCHANGED bvars
Write(s, v) == IsLive(s) /\ blk' = [blk EXCEPT ![s].val = v] /\ UNCHANGED <<size, margin, side>>
Of(d) == {s \in Slots : IsLive(s) /\ side[s] \in d}
Reset(d) ==                      \* gives back everything of one stack (or both)
    /\ Exists
    /\ margin' = margin + SumLive(Of(d), [s \in Slots |-> Round8(blk[s].len)])
    /\ blk' = [s \in Slots |-> IF s \in Of(d) THEN Free ELSE blk[s]]
    /\ side' = [s \in Slots |-> IF s \in Of(d) THEN "-" ELSE side[s]]
    /\ UNCHANGED size
Drop0 == blk' = NoBlocks /\ side' = [s \in Slots |-> "-"]
Resize(n, avail, r) ==           \* all earlier blocks are given up
    /\ Exists
    /\ IF r THEN n > 0 /\ Offered(n, avail) /\ Drop0 ELSE UNCHANGED bvars
Clear == Drop0 /\ size' = 0 /\ margin' = 0
Safe == Disjoint(0) /\ Inside(size) /\ Aligned
        /\ margin + SumLive(Of({"front", "back"}), [s \in Slots |-> Round8(blk[s].len)]) <= size
==============================================================================
