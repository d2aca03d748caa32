------------------------------ MODULE DequeTrace -----------------------------
EXTENDS Deque, TraceBase
Hs(s) == [k \in 1..Len(s) |-> s[k].h]
Vs(s) == [k \in 1..Len(s) |-> s[k].v]
Obs == /\ Ev.exists = exists'
       /\ Ev.count = Len(items')
       /\ Ev.empty = (items' = <<>>)
       /\ Ev.fh = Hs(items')
       /\ Ev.fv = Vs(items')
       /\ Ev.bh = Reverse(Hs(items'))
       /\ Ev.front = (IF items' = <<>> THEN -1 ELSE items'[1].v)
       /\ Ev.back  = (IF items' = <<>> THEN -1 ELSE items'[Len(items')].v)
       /\ (~exists' => Ev.heap = 0)
Reason(ok) == (~ok => Ev.oom) /\ (Ev.oom => ~ok)
TraceInit == DqInit /\ l = 1
TNew == IF exists THEN Ev.r = FALSE /\ Same
        ELSE New(Ev.r) /\ (~Ev.r => Ev.oom) /\ (Ev.oom => ~Ev.r)
TraceNext ==
    /\ \/ IsEvent("reset")   /\ Release
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("new")     /\ TNew
       \/ IsEvent("release") /\ Release
       \/ IsEvent("clear")   /\ Clear
       \/ IsEvent("rst")     /\ Reset
       \/ IsEvent("append")  /\ AppendItem(Ev.v, Ev.r) /\ Reason(Ev.r # -1)
       \/ IsEvent("prepend") /\ Prepend(Ev.v, Ev.r) /\ Reason(Ev.r # -1)
       \/ IsEvent("pop_front") /\ PopFront(Ev.v, Ev.r)
       \/ IsEvent("pop_back")  /\ PopBack(Ev.v, Ev.r)
       \/ IsEvent("probe")   /\ Same /\ ~Ev.data /\ Ev.next = -1 /\ Ev.prev = -1
                                /\ Ev.live = Len(items)   \* a handle gives data exactly while its item is in the deque
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
