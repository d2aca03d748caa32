-------------------------------- MODULE MCBig ---------------------------------
(* The representation by runs is faithful: beside the runs the plain sequence *)
(* of identities is kept, and every operator has to agree with it.            *)
EXTENDS Big, MCBase
VARIABLES e, next                          \* the plain sequence; identities not used so far
vars == <<runs, e>>
Do(w) == op' = w
Max == 5
MCInit == BigInit /\ e = <<>> /\ next = 0 /\ op = <<"reset">>
Ids(f, n) == [k \in 1..n |-> f + k - 1]
Fresh(n) == next' = next + n
Ns == {1, 2}
MCNext ==
    \/ \E n \in Ns : Size + n <= Max /\ next + n <= 6 /\ Push(next, n) /\ e' = e \o Ids(next, n) /\ Fresh(n) /\ Do(<<"push", next, n>>)
    \/ \E n \in Ns : Size + n <= Max /\ next + n <= 6 /\ Front(next, n) /\ e' = Ids(next, n) \o e /\ Fresh(n) /\ Do(<<"front", next, n>>)
    \/ \E p \in 0..(Max - 1), n \in Ns : Del(p, n) /\ e' = SubSeq(e, 1, p) \o SubSeq(e, p + n + 1, Len(e)) /\ UNCHANGED next /\ Do(<<"del", p, n>>)
    \/ \E n \in Ns : Pop(n) /\ e' = SubSeq(e, 1, Len(e) - n) /\ UNCHANGED next /\ Do(<<"pop", n>>)
    \/ \E n \in Ns : PopF(n) /\ e' = SubSeq(e, n + 1, Len(e)) /\ UNCHANGED next /\ Do(<<"popf", n>>)
    \/ \E p \in 0..(Max - 1) : next < 6 /\ Set(p, next) /\ e' = [e EXCEPT ![p + 1] = next] /\ Fresh(1) /\ Do(<<"set", p, next>>)
    \/ Size * 2 <= Max /\ Double /\ e' = e \o e /\ UNCHANGED next /\ Do(<<"double">>)
    \/ Size > 0 /\ Empty /\ e' = <<>> /\ UNCHANGED next /\ Do(<<"clear">>)
MCSpec == MCInit /\ [][MCNext]_<<vars, next, op>>
View == <<runs, next>>
RECURSIVE Plain(_, _)
Plain(s, f) == IF s = <<>> THEN 0 ELSE (f[Head(s) + 1] + Plain(Tail(s), f)) % Room
Imgs == [k \in 1..20 |-> Img(k - 1)]
First(id) == IF \E k \in 1..Len(e) : e[k] = id THEN (CHOOSE k \in 1..Len(e) : e[k] = id /\ \A j \in 1..(k - 1) : e[j] # id) - 1 ELSE -1
Faithful == /\ Size = Len(e)
            /\ \A p \in 0..(Len(e) - 1) : IdAt(runs, p) = e[p + 1]
            /\ Sum(runs) = Plain(e, Imgs)
            /\ \A id \in 0..12 : Where(runs, id, 0) = First(id)
Emit == Edge(<<runs, next>>, <<runs', next'>>)
==============================================================================
