------------------------------- MODULE MemPool -------------------------------
(* allocators/mempool: a heap in one store.  Every block is preceded by a    *)
(* header of H bytes and may be up to Slack bytes longer than asked for (a   *)
(* free piece that is only a little larger is not split).                    *)
(* holes: pieces given back that nothing has been placed into since; virgin: *)
(* a lower bound of the space that belongs to no piece.  A request that fits *)
(* a hole or the virgin space has to be granted.                             *)
(* Two more guarantees about space given back need some history:             *)
(*  - blocks given back in the reverse order of their making leave virgin    *)
(*    space behind (carved: the ranges taken from it, in order);             *)
(*  - two neighbouring blocks of the same size, given back while everything  *)
(*    around them is in use, become one piece (single: pieces that are known *)
(*    to be of exactly that extent, between blocks in use).                  *)
EXTENDS Blocks, FiniteSets
CONSTANTS H, Slack
VARIABLES size, holes, virgin, carved, used, exact, single
hist == <<carved, used, exact, single>>
mvars == <<blk, size, holes, virgin, hist>>
Empty == carved' = <<>> /\ used' = {} /\ exact' = {} /\ single' = {} /\ holes' = {}
Init == blk = NoBlocks /\ size = 0 /\ holes = {} /\ virgin = 0 /\ carved = <<>> /\ used = {} /\ exact = {} /\ single = {}
Exists == size > 0
Live == {s \in Slots : IsLive(s)}
Make(n, r) ==
    /\ ~Exists
    /\ IF r THEN size' = n /\ virgin' = n - (n % 8) ELSE UNCHANGED <<size, virgin>>
    /\ blk' = blk /\ Empty
Need(n) == H + Round8(n)
MustFit(n) == ~Huge(n) /\ n > 0 /\ (virgin >= Need(n) \/ \E h \in holes : h[2] - h[1] >= Need(n))
Placed(off, n) ==                       \* a block occupies at least its header and contents
    /\ off % 8 = 0 /\ off - H >= 0 /\ off + n <= size
    /\ \A t \in Live : Apart(off - H, H + n, blk[t].off - H, H + blk[t].len)
Range(off, n) == <<off - H, off + Round8(n)>>
RangeOf(s) == Range(blk[s].off, blk[s].len)
Away(a, b) == a[2] <= b[1] \/ b[2] <= a[1]
\* what is known of the space: m = [h |-> holes, v |-> virgin, c |-> carved, u |-> used, e |-> exact, s |-> single]
Now == [h |-> holes, v |-> virgin, c |-> carved, u |-> used, e |-> exact, s |-> single]
Become(m) == holes' = m.h /\ virgin' = m.v /\ carved' = m.c /\ used' = m.u /\ exact' = m.e /\ single' = m.s
\* r is taken: surely out of virgin space if no block ever was there
Take1(m, r) ==
    LET wide == <<r[1], r[2] + Slack>> fresh == \A x \in m.u : Away(r, x) IN
    [h |-> {x \in m.h : Away(wide, x)}, s |-> {x \in m.s : Away(wide, x)},
     v |-> Max2(0, m.v - (r[2] - r[1])), u |-> m.u \union {r},
     c |-> IF fresh THEN Append(m.c, r) ELSE m.c, e |-> IF fresh THEN m.e \union {r} ELSE m.e]
\* r is given back while the blocks at L stay in use
Give1(m, L, r) ==
    LET last == Len(m.c) > 0 /\ m.c[Len(m.c)] = r
        near == {x \in m.s : x[2] = r[1] \/ x[1] = r[2]}
        Where(x) == CHOOSE i \in 1..Len(m.c) : m.c[i] = x
        \* something carved later is still in use, and r is known exactly
        Inner == r \in m.e /\ \E x \in L : x \in m.e /\ Where(x) > Where(r)
        LeftUsed(a) == \E x \in L : x \in m.e /\ x[2] = a
        RightUsed(a) == a = size - (size % 8) \/ \E x \in L : x[1] = a
        alone == Inner /\ LeftUsed(r[1]) /\ RightUsed(r[2])
        Whole(x) == <<Min2(x[1], r[1]), Max2(x[2], r[2])>>
        joins == {x \in near : Inner /\ x[2] - x[1] = r[2] - r[1] /\ LeftUsed(Whole(x)[1]) /\ RightUsed(Whole(x)[2])} IN
    IF last THEN [m EXCEPT !.v = @ + (r[2] - r[1]), !.c = SubSeq(@, 1, Len(@) - 1), !.u = @ \ {r}, !.e = @ \ {r}, !.s = @ \ near]
    ELSE [m EXCEPT !.h = @ \union {r} \union {Whole(x) : x \in joins}, !.e = @ \ {r},
                   !.s = IF alone THEN @ \union {r} ELSE @ \ near]
Others(s) == {RangeOf(t) : t \in Live \ {s}}
Alloc(s, n, off) ==
    /\ Exists /\ ~IsLive(s) /\ n > 0 /\ Placed(off, n)
    /\ blk' = [blk EXCEPT ![s] = [off |-> off, len |-> n, val |-> 0]]
    /\ Become(Take1(Now, Range(off, n)))
    /\ UNCHANGED size
Refuse(n) == Exists /\ ~MustFit(n) /\ UNCHANGED mvars
Write(s, v) == IsLive(s) /\ blk' = [blk EXCEPT ![s].val = v] /\ UNCHANGED <<size, holes, virgin, hist>>
Release(s) ==
    /\ Exists /\ IsLive(s)
    /\ Become(Give1(Now, Others(s), RangeOf(s)))
    /\ blk' = [blk EXCEPT ![s] = Free]
    /\ UNCHANGED size
\* the new block is found while the old one still exists; what fits of the contents moves along
Realloc(s, n, off) ==
    /\ Exists /\ IsLive(s) /\ n > 0 /\ Placed(off, n)
    /\ blk' = [blk EXCEPT ![s] = [off |-> off, len |-> n, val |-> @.val]]
    /\ Become(Give1(Take1(Now, Range(off, n)), Others(s) \union {Range(off, n)}, RangeOf(s)))
    /\ UNCHANGED size
Clear == blk' = NoBlocks /\ size' = 0 /\ virgin' = 0 /\ Empty
\* what is reported as remaining: everything but the blocks, their headers and their slack
Used == SumLive(Live, [s \in Slots |-> Need(blk[s].len)])
RemainingOk(x) == /\ x <= size - Used
                  /\ x >= size - (size % 8) - Used - Slack * Cardinality(Live)
Safe == /\ Disjoint(H) /\ Aligned /\ \A s \in Live : blk[s].off >= H /\ blk[s].off + blk[s].len <= size
        /\ virgin >= 0 /\ virgin <= Max2(0, size - Used)
        /\ \A h \in holes, s \in Live : Apart(h[1], h[2] - h[1], blk[s].off - H, Need(blk[s].len))
        /\ exact \subseteq {RangeOf(s) : s \in Live} /\ single \subseteq holes
        \* what virgin space is left and what was carved never exceed the store
        /\ \A i, j \in 1..Len(carved) : i # j => Away(carved[i], carved[j])
==============================================================================
