------------------------------ MODULE MCVariant ------------------------------
EXTENDS Variant, MCBase
Do(w) == op' = w
Vals == {<<>>, <<1>>, <<1, 2, 3>>}
Tags == {0, -5}
I == 1..NVars
MCInit == VInit /\ op = <<"reset">>
MCNext ==
    \/ \E i \in I, v \in Vals, t \in Tags, h \in {0, 1} : New(i, v, t, TRUE) /\ Do(<<"new", i, v, t, h>>)
    \/ \E i \in I, v \in Vals : Set(i, v, TRUE) /\ Do(<<"set", i, v>>)
    \/ \E i \in I, j \in I : (vs[j].d) /\ Set(i, vs[j].v, TRUE) /\ Do(<<"share", i, j>>)
    \/ \E i \in I : Clear(i) /\ Do(<<"clear", i>>)
    \/ \E i \in I : vs[i].ex /\ Free(i) /\ Do(<<"free", i>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
View == vars
Emit == Edge(vars, vars')
\* a call changes one variant at most
Isolation == [][\A i, j \in I : (vs[i] # vs'[i] /\ vs[j] # vs'[j]) => i = j]_vars
==============================================================================
