------------------------------- MODULE MCDeque -------------------------------
EXTENDS Deque, MCBase
CONSTANTS Vals, MaxLen
Do(w) == op' = w
Fresh == CHOOSE h \in 0..MaxLen + 1 : h \notin Handles       \* the least one, so that states stay few
MCInit == DqInit /\ op = <<"reset", 1>>
MCNext ==
    \/ \E n \in {1, 2, 4}, k \in {0, 1} : New(TRUE) /\ Do(<<"new", k, n>>)
    \/ exists /\ Release /\ Do(<<"release">>)
    \/ Clear /\ Do(<<"clear">>)
    \/ Reset /\ Do(<<"rst">>)
    \/ \E v \in Vals : AppendItem(v, Fresh) /\ Do(<<"append", v>>)
    \/ \E v \in Vals : Prepend(v, Fresh) /\ Do(<<"prepend", v>>)
    \/ \E v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ PopFront(v, r) /\ Do(<<"pop_front">>)
    \/ \E v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ PopBack(v, r) /\ Do(<<"pop_back">>)
    \/ exists /\ Same /\ \E h \in {-1, -3} : Do(<<"probe", h>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
Bound == Len(items) <= MaxLen
Vs(s) == [k \in 1..Len(s) |-> s[k].v]
View == <<exists, Vs(items)>>       \* handles are opaque: states that differ only in them behave alike
Emit == Edge(View, View')
==============================================================================
