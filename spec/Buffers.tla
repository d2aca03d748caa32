------------------------------ MODULE Buffers --------------------------------
(* The raw buffer helpers: parallel buffers that share one length, grown,     *)
(* shifted and released together (one item of the sequence is the bytes all   *)
(* buffers hold at that position), and functions that copy or read memory.    *)
EXTENDS TextOps
VARIABLE bf                      \* [items, cap, n]: first items of cap slots, in n buffers (0: none)
NoBuf == [items |-> <<>>, cap |-> 0, n |-> 0]
BufInit == bf = NoBuf
Zero(n) == Repeat(0, n)
TypeOK == /\ Len(bf.items) <= bf.cap /\ bf.n >= 0
          /\ (bf.n = 0 => bf.cap = 0)
Same == UNCHANGED bf
Live == bf.n                     \* blocks held
\* cap zeroed slots in n buffers, or nothing at all
Calloc(n, cap, r) == bf = NoBuf /\ (IF r THEN bf' = [items |-> <<>>, cap |-> cap, n |-> n] ELSE Same)
\* the caller fills slots
Fill(items) == Len(items) <= bf.cap /\ bf' = [bf EXCEPT !.items = items]
\* grow or shrink: the common prefix stays, a failure changes nothing
Recalloc(cap, r) == bf.n > 0 /\ (IF r THEN bf' = [bf EXCEPT !.items = Take(@, cap), !.cap = cap] ELSE Same)
\* remove (at least one and at most the remaining) items from position i on
Shift(i, k, r) ==
    /\ r = InRange(bf.items, i)
    /\ IF r THEN bf' = [bf EXCEPT !.items = RemoveRange(@, i, IF k = 0 THEN 1 ELSE k)] ELSE Same
Cleanup == bf' = NoBuf
\* the slots beyond the items are zero
TailZero(zero) == zero
\* --- stateless
DupData(d, ok, r) == (IF ok THEN r = d ELSE TRUE) /\ Same
DupText(t, len, ok, r) == (IF ok THEN r = t ELSE TRUE) /\ Same
\* first equal alternative, or SIZE_MAX
Switch(t, alts, r) ==
    /\ r = (LET P == {k \in 1..Len(alts) : alts[k] = t} IN IF P = {} THEN -1 ELSE (CHOOSE k \in P : \A j \in P : k <= j) - 1)
    /\ Same
\* [a b] with a text and a number
SprintfAlloc(t, n, ok, r) == (IF ok THEN r = <<91>> \o t \o <<58>> \o Decimal(n) \o <<93>> ELSE TRUE) /\ Same
MemPCpy(d, r, end) == r = d /\ end = Len(d) /\ Same
\* copies up to and including the first c
MemCCpy(d, c, r, end) ==
    LET p == FirstIdx(d, LAMBDA x : x = c)
    IN  /\ end = (IF p < 0 THEN -1 ELSE p + 1)
        /\ r = (IF p < 0 THEN d ELSE Take(d, p + 1))
        /\ Same
\* a whole file: an empty or missing one gives nothing
LoadFile(exists, d, oom, null, size, r) ==
    /\ IF oom THEN null
       ELSE /\ null = (~exists \/ d = <<>>)
            /\ (~null => r = d /\ size = Len(d))
    /\ Same
FileSize(d, r) == r = Len(d) /\ Same
==============================================================================
