-------------------------------- MODULE MCMap --------------------------------
EXTENDS Map, MCBase
CONSTANTS Keys, Vals, MaxLen
Do(w) == op' = w
KeySetDef == {<<1>>, <<2>>, <<1, 2>>, <<3>>}
ValSetDef == {<<5>>, <<5, 6>>}
MCInit == exists = TRUE /\ ent = <<>> /\ op = <<"start">>      \* the driver's "reset" also creates the map
Idx == 0..MaxLen \cup {-1}
MCNext ==
    \/ \E k \in Keys, v \in Vals : Insert(k, v, ~HasKey(k)) /\ Do(<<"insert", k, v>>)
    \/ \E k \in Keys, v \in Vals : KeySet(k, v, TRUE) /\ Do(<<"key_set", k, v>>)
    \/ \E i \in Idx, v \in Vals : IdxSet(i, v, InRange(ent, i)) /\ Do(<<"idx_set", i, v>>)
    \/ \E k \in Keys, v \in Vals \cup {<<>>} : (HasKey(k) \/ v = <<>>) /\ Get(k, HasKey(k), Pos(k), v) /\ Do(<<"get", k>>)
    \/ \E v \in Vals, k \in Keys \cup {<<>>} : (PosVal(v) >= 0 \/ k = <<>>) /\ FindVal(v, PosVal(v), PosVal(v) >= 0, k) /\ Do(<<"find_val", v>>)
    \/ \E k \in Keys, r \in BOOLEAN : KeyRm(k, r) /\ Do(<<"key_rm", k>>)
    \/ \E i \in Idx, r \in BOOLEAN : IdxRm(i, r) /\ Do(<<"idx_rm", i>>)
    \/ \E n \in {1, 2, 4, 8} : Rehash(n, n >= Len(ent)) /\ Do(<<"rehash", n>>)
    \/ Clear /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
Bound == Len(ent) <= MaxLen
View == vars
Emit == Edge(vars, vars')
==============================================================================
