-------------------------------- MODULE MCTree -------------------------------
EXTENDS Tree, MCBase
CONSTANTS Vals, MaxNodes
V2 == {<<1>>, <<1, 2>>}
V3 == V2 \cup {<<>>}
Do(w) == op' = w
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {{<<i - 1>> \o p : p \in Paths(t.k[i])} : i \in 1..Len(t.k)}
P(s) == IF Has1(s) THEN Paths(slots[s][1]) ELSE {}
PW(p) == IF p = <<>> THEN <<"/">> ELSE <<"/">> \o p \o <<"/">>       \* path as script words
Kids(s, p) == 0..Len(NodeAt(s, p).k)
MCInit == TreeInit /\ op = <<"reset">>
MCNext ==
    \/ \E s \in Slots, v \in Vals : New(s, v, TRUE) /\ Do(<<"new", s, v>>)
    \/ \E s \in Slots : Has1(s) /\ Free(s) /\ Do(<<"free", s>>)
    \/ \E s \in Slots : \E p \in P(s) :
       \/ Clear(s, p) /\ Do(<<"clear", s>> \o PW(p))
       \/ \E v \in Vals, r \in BOOLEAN : r = (v # <<>>) /\ Set(s, p, v, r) /\ Do(<<"set", s, v>> \o PW(p))
       \/ \E v \in Vals, r \in BOOLEAN : r = (v # <<>>) /\ InsertVal(s, p, v, r) /\ Do(<<"insert_val", s, v>> \o PW(p))
       \/ \E c \in Slots \ {s}, r \in BOOLEAN : Has1(c) /\ r = slots[c][1].d /\ InsertNode(s, p, c, r) /\ Do(<<"insert_node", s, c>> \o PW(p))
       \/ \E i \in Kids(s, p), r \in BOOLEAN : RmAt(s, p, i, r) /\ Do(<<"rm_index", s, i>> \o PW(p))
       \/ \E i \in Kids(s, p) : RmAt(s, p, i, TRUE) /\ Do(<<"rm_node", s, i>> \o PW(p))
       \/ \E c \in Slots \ {s} : Has1(c) /\ RmForeign(s, p, FALSE) /\ Do(<<"rm_foreign", s, c>> \o PW(p))
       \/ \E v \in Vals, r \in BOOLEAN : RmVal(s, p, v, r) /\ Do(<<"rm_val", s, v>> \o PW(p))
       \/ \E v \in Vals, i \in -1..MaxNodes : FindVal(s, p, v, i) /\ Do(<<"find_val", s, v>> \o PW(p))
       \/ \E i \in Kids(s, p) \cup {-1}, r \in BOOLEAN : GetIdx(s, p, i, r) /\ Do(<<"get_idx", s, i>> \o PW(p))
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
Bound == Total <= MaxNodes
View == vars
Emit == Edge(slots, slots')
\* a failed call never changes a tree, and at most one node is added by a call
Growth == [][Total' <= Total + 1]_vars
==============================================================================
