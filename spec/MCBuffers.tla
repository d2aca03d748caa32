------------------------------ MODULE MCBuffers ------------------------------
EXTENDS Buffers, MCBase
CONSTANTS MaxCap
vars == <<bf, op>>
Do(w) == op' = w
B(b) == IF b THEN 1 ELSE 0
MCInit == BufInit /\ op = <<"reset">>
\* items are named by how the driver fills them: distinct serial numbers
Ser(n) == [k \in 1..n |-> k]
Texts == {<<>>, <<97>>, <<97, 98>>, <<97, 98, 97>>, <<98, 97, 98>>}
MCNext == \/ \E n \in 1..2, c \in 0..MaxCap : Calloc(n, c, TRUE) /\ Do(<<"calloc", n, c>>)
          \/ \E k \in 0..MaxCap : bf.n > 0 /\ Fill(Ser(k)) /\ Do(<<"fill", k>>)
          \/ \E c \in 0..MaxCap : Recalloc(c, TRUE) /\ Do(<<"recalloc", c>>)
          \/ \E i \in (0..MaxCap) \union {-1}, k \in (0..MaxCap) \union {-1} : bf.n > 0 /\ Shift(i, k, InRange(bf.items, i)) /\ Do(<<"shift", i, k>>)
          \/ Cleanup /\ Do(<<"cleanup">>)
          \/ /\ bf = NoBuf /\ Same
             /\ \E t \in Texts : \/ \E o \in {"dup", "duptext", "mempcpy", "load", "size"} : Do(<<o, t>>)
                                 \/ \E c \in 96..98 : Do(<<"memccpy", c, t>>)
                                 \/ \E n \in {0, -7, 123456} : Do(<<"sprintf", n, t>>)
                                 \/ \E a, b \in Texts : Do(<<"switch", t, a, b>>)
MCSpec == MCInit /\ [][MCNext]_vars
View == bf
Emit == Edge(bf, bf')
RemovedLaw == [][Len(bf'.items) > Len(bf.items) => op'[1] = "fill"]_vars
==============================================================================
