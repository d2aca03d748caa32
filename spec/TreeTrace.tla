------------------------------- MODULE TreeTrace -----------------------------
EXTENDS Tree, TraceBase
Obs == Ev.slots = slots' /\ (Total' = 0 => Ev.heap = 0) /\ (Ev.oom => ~Ev.r)
Reason(b) == ~Ev.r => (Ev.oom \/ b)
TraceInit == TreeInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ slots' = [s \in Slots |-> <<>>]
       \/ IsEvent("none")  /\ Same
       \/ IsEvent("new")   /\ New(Ev.s, Ev.v, Ev.r) /\ Reason(FALSE)
       \/ IsEvent("free")  /\ Free(Ev.s) /\ Ev.null
       \/ IsEvent("clear") /\ Clear(Ev.s, Ev.p)
       \/ IsEvent("set")   /\ Set(Ev.s, Ev.p, Ev.v, Ev.r) /\ Reason(Ev.v = <<>>)
       \/ IsEvent("insert_val")  /\ InsertVal(Ev.s, Ev.p, Ev.v, Ev.r) /\ Reason(Ev.v = <<>>)
       \/ IsEvent("insert_node") /\ InsertNode(Ev.s, Ev.p, Ev.c, Ev.r) /\ Reason(~slots[Ev.c][1].d)
       \/ IsEvent("rm_index") /\ RmAt(Ev.s, Ev.p, Ev.i, Ev.r)
       \/ IsEvent("rm_node")  /\ RmAt(Ev.s, Ev.p, Ev.i, Ev.r) /\ Ev.null = Ev.r
       \/ IsEvent("rm_foreign") /\ RmForeign(Ev.s, Ev.p, Ev.r) /\ ~Ev.null
       \/ IsEvent("rm_val")   /\ RmVal(Ev.s, Ev.p, Ev.v, Ev.r)
       \/ IsEvent("find_val") /\ FindVal(Ev.s, Ev.p, Ev.v, Ev.i)
       \/ IsEvent("get_idx")  /\ GetIdx(Ev.s, Ev.p, Ev.i, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
