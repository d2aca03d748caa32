------------------------------ MODULE OwnTrace -------------------------------
EXTENDS Own, TraceBase
TraceInit == OwnInit /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ ow' = [s \in Slots |-> Free]
    \/ /\ \/ IsEvent("new") /\ New(Ev.s, Ev.k, Ev.hdr, Ev.ret, Ev.delta)
          \/ IsEvent("use") /\ Use(Ev.s, Ev.ret, Ev.oom, Ev.delta)
          \/ IsEvent("two") /\ Two(Ev.s, Ev.c, Ev.ret, Ev.oom, Ev.delta)
          \/ IsEvent("clear") /\ Clear(Ev.s, Ev.delta) /\ Ev.empty
          \/ IsEvent("free") /\ Release(Ev.s, Ev.delta) /\ Ev.null
       /\ Ev.total = SumOf(ow', Slots)
       /\ Ev.files = 0                \* every file opened on the way is closed again
TraceSpec == TraceInit /\ [][TraceNext]_<<ow, l>>
==============================================================================
