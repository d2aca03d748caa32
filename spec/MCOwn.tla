------------------------------- MODULE MCOwn ---------------------------------
EXTENDS Own, MCBase
CONSTANTS Used
vars == <<ow, op>>
MCInit == OwnInit /\ op = <<"reset">>
Do(w) == op' = w
Amounts == {0, 1, 3}
MCNext ==
    \/ \E s \in Slots, k \in HeapKinds, n \in Amounts, d \in 1..2 : New(s, k, TRUE, TRUE, d) /\ Do(<<"new", s, k, 1, n>>)
    \/ \E s \in Slots, k \in StackKinds, n \in Amounts, d \in 0..1 : New(s, k, FALSE, TRUE, d) /\ Do(<<"new", s, k, 0, n>>)
    \/ \E s \in Slots, w \in Used, n \in Amounts, d \in -1..1 : ow[s].n + d <= 1 /\ Use(s, TRUE, FALSE, d) /\ Do(<<"use", s, w, n>>)
    \/ \E s, c \in Slots, w \in 0..1 : s # c /\ ow[s].k # 0 /\ ow[c].k = ow[s].k /\ (ow[s].k = TreeKind => ow[c].hdr = 1) /\ Two(s, c, TRUE, FALSE, IF ow[s].k = TreeKind THEN -(ow[c].n + 1) ELSE 0) /\ Do(<<"two", s, c, w>>)
    \/ \E s \in Slots : ow[s].k \notin {0, CfgKind} /\ Clear(s, -ow[s].n) /\ Do(<<"clear", s>>)
    \/ \E s \in Slots : ow[s].k # 0 /\ Release(s, -(ow[s].n + ow[s].hdr)) /\ Do(<<"free", s>>)
MCSpec == MCInit /\ [][MCNext]_vars
View == ow
Shape(o) == [s \in Slots |-> <<o[s].k, o[s].hdr>>]
Emit == Edge(Shape(ow), Shape(ow'))
\* releasing everything leaves nothing
AllReturned == (\A s \in Slots : ow[s].k = 0) => SumOf(ow, Slots) = 0
OnlyOwners == SumOf(ow, Slots) >= Cardinality({s \in Slots : ow[s].hdr = 1})
==============================================================================
