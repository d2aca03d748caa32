------------------------------- MODULE MCTuple -------------------------------
EXTENDS Tuple, MCBase
CONSTANTS Sizes, MaxFields
Do(w) == op' = w
B(b) == IF b THEN 1 ELSE 0
Fill(n, x) == [k \in 1..n |-> x]
MCInit == TupleInit /\ op = <<"reset">>
MCNext ==
    \/ \E n \in 0..MaxFields : \E ss \in [1..n -> Sizes], pk \in BOOLEAN, h \in {0, 1} : New(ss, pk, TRUE) /\ Do(<<"new", h, B(pk)>> \o ss)
    \/ exists /\ Release /\ Do(<<"release">>)
    \/ exists /\ Release /\ Do(<<"cleared">>)
    \/ \E i \in 0..MaxFields, x \in {7} : (exists /\ i < Len(sizes)) /\ Set(i, Fill(sizes[i + 1], x), TRUE) /\ Do(<<"set", i, x>>)
    \/ \E i \in {-1, Len(sizes)} : exists /\ Set(i, <<>>, FALSE) /\ Do(<<"set", i, 1>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == vars
Emit == Edge(vars, vars')
\* writing one field leaves the others alone
OneField == [][(exists /\ exists') => \A i, j \in 1..Len(flds) : (flds[i] # flds'[i] /\ flds[j] # flds'[j]) => i = j]_vars
==============================================================================
