------------------------------ MODULE MCMemPool ------------------------------
EXTENDS MemPool, MCBase
Sizes == {8, 40}
Do(w) == op' = w
MCInit == Init /\ op = <<"reset">>
\* lowest position that is free
Spots == {o \in {H + 8 * i : i \in 0..((size - H) \div 8)} : o <= size}
First(n) == {o \in Spots : Placed(o, n) /\ \A p \in Spots : (Placed(p, n) => p >= o)}
MCNext ==
    \/ \E n \in {0, 168}, k \in {0, 1} : Make(n, n > 0) /\ Do(<<"make", k, n>>)
    \/ \E s \in Slots, n \in Sizes : \E o \in First(n) : Alloc(s, n, o) /\ Do(<<"alloc", s, n>>)
    \/ \E s \in Slots, n \in Sizes \union {0, 400, -1} : ~IsLive(s) /\ (n \in Sizes => First(n) = {}) /\ Refuse(n) /\ Do(<<"alloc", s, n>>)
    \/ \E s \in Slots, v \in {255} : Write(s, v) /\ Do(<<"write", s, v>>)
    \/ \E s \in Slots : Release(s) /\ (Do(<<"free", s>>) \/ Do(<<"cleanup", s>>))
    \/ \E s \in Slots, n \in Sizes : \E o \in First(n) : Realloc(s, n, o) /\ Do(<<"realloc", s, n>>)
    \/ \E k \in 0..3 : Exists /\ UNCHANGED mvars /\ Do(<<"foreign", k>>)
    \/ Exists /\ Clear /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<blk, size, holes, virgin, hist, op>>
Order(s) == Cardinality({t \in Live : blk[t].off < blk[s].off})
View == <<[s \in Slots |-> <<blk[s].len, blk[s].val, IF IsLive(s) THEN Order(s) ELSE 0>>], size, holes, virgin, exact, single>>
Short == <<[s \in Slots |-> <<blk[s].len, IF IsLive(s) THEN Order(s) ELSE 0>>], size>>
Emit == Edge(Short, Short')
==============================================================================
