------------------------------- MODULE MCLinks -------------------------------
EXTENDS Links, MCBase
CONSTANTS N
Nodes == 1..N
Do(w) == op' = w
MCInit == LinksInit /\ op = <<"reset">>
MCNext ==
    \/ \E k \in 1..3, t \in BOOLEAN : kind = 0 /\ Mode(k, t) /\ Do(<<"mode", k, t>>)
    \/ \E n \in Nodes : AddHead(n) /\ Do(<<"add_head", n>>)
    \/ \E n \in Nodes : AddTail(n) /\ Do(<<"add_tail", n>>)
    \/ \E m, n \in Nodes : AddAfter(m, n) /\ Do(<<"add_after", m, n>>)
    \/ \E n \in Nodes : Remove(n) /\ Do(<<"remove", n>>)
    \/ kind = 0 /\ (\E a, b, c \in 0..3 : Do(<<"links", a, b, c>>)) /\ UNCHANGED vars
    \/ PopHead /\ Do(<<"pop_head">>)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == vars
Emit == Edge(vars, vars')
\* an insertion or removal never reorders the nodes that stay
Order == [][\A a, b \in 1..Len(list) : (a < b /\ kind' = kind) =>
              LET p(x) == IF \E c \in 1..Len(list') : list'[c] = list[x] THEN CHOOSE c \in 1..Len(list') : list'[c] = list[x] ELSE 0
              IN  (p(a) # 0 /\ p(b) # 0) => p(a) < p(b)]_vars
\* a step adds or removes at most one node
OneNode == [][(kind' = kind) => AbsDiff(Len(list), Len(list')) <= 1]_vars
==============================================================================
