------------------------------- MODULE MCWalk --------------------------------
EXTENDS Walk, MCBase
CONSTANTS MaxEntries, MaxDepth
vars == <<fs, wild, op>>
MCInit == fs = NoFiles /\ wild = {} /\ op = <<"reset">>
Do(w) == op' = w
Names == {<<97>>, <<98, 46, 115, 111>>, <<46, 104>>}          \* a  b.so  .h
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Join(Tail(p))
Dirs == {<<>>} \union {p \in DOMAIN fs : fs[p].k = "dir"}
Grow == Cardinality(DOMAIN fs) < MaxEntries
Spots == {Append(d, n) : d \in {d \in Dirs : Len(d) < MaxDepth}, n \in Names} \ DOMAIN fs
MCNext ==
    \/ Grow /\ \E q \in Spots : Add(Join(Front(q)), Last(q), [k |-> "dir", to |-> <<>>]) /\ Do(<<"dir", Join(Front(q)), Last(q)>>)
    \/ Grow /\ \E q \in Spots : Add(Join(Front(q)), Last(q), [k |-> "file", to |-> <<>>]) /\ Do(<<"file", Join(Front(q)), Last(q)>>)
    \/ Grow /\ \E q \in Spots : \E t \in {<<>>, None} \union DOMAIN fs \union {q} :
           Add(Join(Front(q)), Last(q), [k |-> "link", to |-> t]) /\ Do(<<"link", Join(Front(q)), Last(q), Join(t)>>)
    \/ \E d \in {<<>>} \union {p \in DOMAIN fs : Len(p) = 1}, e \in {<<115, 111>>, <<>>, <<104>>} : UNCHANGED <<fs, wild>> /\ Do(<<"walk", Join(d), e>>)
    \/ UNCHANGED <<fs, wild>> /\ Do(<<"walk", <<>>, "none">>)
MCSpec == MCInit /\ [][MCNext]_vars
View == fs
State(f) == {<<p, f[p].k, f[p].to>> : p \in DOMAIN f}
Emit == Edge(State(fs), State(fs'))
\* what has to be reported may be; nothing below a hidden directory; a walk from a directory is the part of a
\* walk from above that lies in it
Consistent == \A e \in {<<115, 111>>, <<>>, <<104>>} :
    LET M == Must(<<>>, <<>>, e) IN
    /\ \A m \in M : /\ May(<<>>, m, e) /\ Ext(Last(m)) = e
                    /\ \A i \in 1..(Len(m) - 1) : ~Hidden(m[i])
    /\ \A d \in Dirs : (d # <<>> /\ \A i \in 1..Len(d) : ~Hidden(d[i])) => {d \o m : m \in Must(d, <<>>, e)} = {m \in M : Len(m) > Len(d) /\ SubSeq(m, 1, Len(d)) = d}
TreeOK == \A p \in DOMAIN fs : /\ fs[p].k \in Kinds
                               /\ IF Len(p) > 1 THEN Front(p) \in DOMAIN fs /\ fs[Front(p)].k = "dir" ELSE TRUE
==============================================================================
