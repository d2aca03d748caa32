------------------------------- MODULE BigTrace -------------------------------
EXTENDS Big, TraceBase
Obs == /\ Ev.len = Total(runs')
       /\ Ev.sum = Sum(runs')
       /\ Ev.sum2 = Sum(runs')
       /\ \A k \in 1..Len(Ev.at) : Ev.at[k][1] < Ev.len /\ Ev.at[k][2] = Img(IdAt(runs', Ev.at[k][1]))
       /\ (runs' = <<>> => Ev.heap <= 10)      \* at most the (empty) container's own blocks
TraceInit == BigInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset")  /\ Empty /\ Ev.heap = 0
       \/ IsEvent("none")   /\ Same
       \/ IsEvent("push")   /\ Ev.r = Ev.n /\ Push(Ev.f, Ev.n)
       \/ IsEvent("bulk")   /\ Ev.r = Ev.n /\ Push(Ev.f, Ev.n)
       \/ IsEvent("front")  /\ Ev.r = Ev.n /\ Front(Ev.f, Ev.n)
       \/ IsEvent("del")    /\ Ev.r = Ev.n /\ Del(Ev.p, Ev.n)
       \/ IsEvent("pop")    /\ Ev.r = Ev.n /\ Pop(Ev.n)
       \/ IsEvent("popf")   /\ Ev.r = Ev.n /\ PopF(Ev.n)
       \/ IsEvent("set")    /\ Ev.r = 1 /\ Set(Ev.p, Ev.f)
       \/ IsEvent("double") /\ (Ev.r = 1 \/ runs = <<>>) /\ Double
       \/ IsEvent("same")   /\ Same
       \* the items of a reversed copy
       \/ IsEvent("rev")    /\ Ev.ok /\ Same /\ \A k \in 1..Len(Ev.rev) : Ev.rev[k][2] = Img(IdAt(runs, Size - 1 - Ev.rev[k][1]))
       \/ IsEvent("clear")  /\ Empty
       \/ IsEvent("find")   /\ Find(Ev.f, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<runs, l>>
==============================================================================
