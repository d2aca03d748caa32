----------------------------- MODULE VariantTrace ----------------------------
EXTENDS Variant, TraceBase
Obs == Ev.vs = vs' /\ (vs' = [i \in 1..NVars |-> None] => Ev.heap = 0)
Reason == (~Ev.r) = Ev.oom
TraceInit == VInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ vs' = [i \in 1..NVars |-> None]
       \/ IsEvent("none") /\ Same
       \/ IsEvent("new") /\ New(Ev.i, Ev.v, Ev.t, Ev.r) /\ Reason
       \/ IsEvent("set") /\ Set(Ev.i, Ev.v, Ev.r) /\ Reason
       \* storing another variant's bytes (or its own) copies them
       \/ IsEvent("share") /\ Set(Ev.i, vs[Ev.j].v, Ev.r) /\ Reason
       \/ IsEvent("clear") /\ Clear(Ev.i)
       \/ IsEvent("free") /\ Free(Ev.i) /\ Ev.null
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
