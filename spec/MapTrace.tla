------------------------------- MODULE MapTrace ------------------------------
EXTENDS Map, TraceBase
Obs == /\ Ev.exists = exists'
       /\ Ev.len = Len(ent')
       /\ Ev.vals = [i \in 1..Len(ent') |-> ent'[i].v]
       /\ Ev.keys = [i \in 1..Len(ent') |-> ent'[i].k]
       /\ Ev.pos  = [i \in 1..Len(ent') |-> i - 1]
       /\ ~Ev.past
       /\ (~exists' => Ev.heap = 0)
Reason(b) == (~Ev.r => (Ev.oom \/ b)) /\ (Ev.oom => ~Ev.r)
TraceInit == MapInit /\ l = 1
TNew == IF exists THEN Ev.r = FALSE /\ Same ELSE New(Ev.r) /\ Reason(Ev.n = 0)
TraceNext ==
    /\ \/ IsEvent("reset")   /\ Release
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("new")     /\ TNew
       \/ IsEvent("release") /\ Release
       \/ IsEvent("clear")   /\ Clear
       \/ IsEvent("rehash")  /\ Rehash(Ev.n, Ev.r) /\ Reason(Huge(Ev.n) \/ Ev.n < Len(ent) \/ Ev.n > 1000000 \/ Ev.n = 0)
       \/ IsEvent("insert")  /\ Insert(Ev.k, Ev.v, Ev.r) /\ Reason(HasKey(Ev.k))
       \/ IsEvent("key_set") /\ KeySet(Ev.k, Ev.v, Ev.r) /\ Reason(FALSE)
       \/ IsEvent("idx_set") /\ IdxSet(Ev.i, Ev.v, Ev.r) /\ Reason(~InRange(ent, Ev.i))
       \/ IsEvent("get")     /\ Get(Ev.k, Ev.r, Ev.i, Ev.v) /\ Ev.got = Ev.r
       \/ IsEvent("find_val") /\ FindVal(Ev.v, Ev.i, Ev.r, Ev.k)
       \/ IsEvent("key_rm")  /\ KeyRm(Ev.k, Ev.r)
       \/ IsEvent("idx_rm")  /\ IdxRm(Ev.i, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
