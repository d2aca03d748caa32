------------------------------ MODULE MCObjPool ------------------------------
EXTENDS ObjPool, MCBase
Do(w) == op' = w
MCInit == Init /\ op = <<"reset">>
MCNext ==
    \/ \E n \in 0..3, m \in {0, 3, 8, 24}, k \in {0, 1} : Make(n, m, n > 0 /\ m > 0 /\ (k = 1 => m % 8 = 0)) /\ Do(<<"make", k, n, m>>)
    \/ \E s \in Slots, i \in 0..2 : i < cells /\ Alloc(s, i * Round8(osize)) /\ Do(<<"alloc", s>>)
    \/ \E s \in Slots : ~IsLive(s) /\ Exhausted /\ Do(<<"alloc", s>>)
    \/ \E s \in Slots, v \in {0, 255} : Write(s, v) /\ Do(<<"write", s, v>>)
    \/ \E s \in Slots : Release(s) /\ (Do(<<"free", s>>) \/ Do(<<"cleanup", s>>))
    \/ \E k \in 0..5 : Foreign /\ Do(<<"foreign", k>>)
    \/ Exists /\ Clear /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<blk, cells, osize, op>>
\* which cell a slot has got does not matter to the future
View == <<[s \in Slots |-> <<blk[s].len, blk[s].val>>], cells, osize>>
Emit == Edge(View, View')
==============================================================================
