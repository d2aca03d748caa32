------------------------------ MODULE MCBiStack ------------------------------
EXTENDS BiStack, MCBase
Sizes == {1, 8, 15, 24}
Do(w) == op' = w
Low(d) == IF Of({"front"}) = {} THEN 0 ELSE CHOOSE m \in {blk[s].off + Round8(blk[s].len) : s \in Of({"front"})} : \A s \in Of({"front"}) : m >= blk[s].off + Round8(blk[s].len)
High(d) == Low(d) + margin
MCInit == Init /\ op = <<"reset">>
MCNext ==
    \/ \E n \in {0, 8, 31, 40}, k \in {0, 1} : Make(n, n - (n % 8), n > 0) /\ Do(<<"make", k, n>>)
    \/ \E s \in Slots, n \in Sizes, d \in {"front", "back"} :
          (\A t \in Slots : t < s => IsLive(t)) /\ Alloc(d, s, n, IF d = "front" THEN Low(0) ELSE High(0) - Round8(n)) /\ Do(<<"alloc", d, s, n>>)
    \/ \E s \in Slots, n \in Sizes \union {33, -1}, d \in {"front", "back"} : ~IsLive(s) /\ Refuse(n) /\ Do(<<"alloc", d, s, n>>)
    \/ \E s \in Slots, v \in {1, 255} : Write(s, v) /\ Do(<<"write", s, v>>)
    \/ \E d \in {"front", "back", "all"} : Reset(IF d = "all" THEN {"front", "back"} ELSE {d}) /\ Do(<<"giveup", d>>)
    \/ \E n \in {8, 40} : Resize(n, n, TRUE) /\ Do(<<"resize", n>>)
    \/ Exists /\ Clear /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<blk, size, margin, side, op>>
View == bvars
Short == <<[s \in Slots |-> <<blk[s].len, side[s]>>], size, margin>>
Emit == Edge(Short, Short')
==============================================================================
