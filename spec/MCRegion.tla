------------------------------- MODULE MCRegion ------------------------------
EXTENDS Region, MCBase
Sizes == {1, 8, 9, 24}
Do(w) == op' = w
Live == {s \in Slots : IsLive(s)}
MCInit == Init /\ op = <<"reset">>
MCNext ==
    \/ \E n \in {0, 8, 20, 32, 47}, k \in {0, 1} : Make(n, n - (n % 8)) /\ Do(<<"make", k, n>>)
    \/ \E s \in Slots, n \in Sizes \union {20, 47} : LET o == rem - Round8(n) IN
          (\A t \in Slots : t < s => IsLive(t)) /\ Alloc(s, n, o) /\ Do(<<"alloc", s, n>>)
    \/ \E s \in Slots, n \in Sizes \union {0, 33, -1} : ~IsLive(s) /\ Refuse(n) /\ Do(<<"alloc", s, n>>)
    \/ \E s \in Slots, v \in {0, 255} : Write(s, v) /\ Do(<<"write", s, v>>)
    \/ Exists /\ Clear /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<blk, size, rem, op>>
View == rvars
Emit == Edge(rvars, rvars')
==============================================================================
