------------------------------ MODULE LinksTrace -----------------------------
EXTENDS Links, TraceBase
Obs == /\ Ev.fwd = list'
       /\ (tailed' => Ev.tail = (IF list' = <<>> THEN 0 ELSE list'[Len(list')]))
       /\ (kind' \in {2, 3} => Ev.bwd = Reverse(list'))
TraceInit == LinksInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ Mode(0, FALSE)
       \/ IsEvent("mode")  /\ Mode(Ev.k, Ev.t)
       \/ IsEvent("add_head") /\ AddHead(Ev.n)
       \/ IsEvent("add_tail") /\ AddTail(Ev.n)
       \/ IsEvent("add_after") /\ AddAfter(Ev.m, Ev.n)
       \/ IsEvent("remove") /\ Remove(Ev.n)
       \/ IsEvent("pop_head") /\ PopHead
       \/ IsEvent("none") /\ Same
       \* a link written is the link read, through the accessor and the reference, and only that one
       \/ IsEvent("links") /\ Same /\ Ev.r = Ev.w /\ Ev.rr = Ev.w
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
