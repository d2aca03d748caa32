---------------------------- MODULE MsgSysTrace ------------------------------
EXTENDS MsgSys, TraceBase
TraceInit == SysInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ sy' = [out |-> [s \in Streams |-> 0], cnt |-> [c \in Counters |-> 0]]
       \/ IsEvent("from") /\ From(Ev.c)
       \/ IsEvent("msg") /\ Write(Ev.s, Ev.c, Ev.file, Ev.line, Ev.col, Ev.type, Ev.color, Ev.text, Ev.out)
    /\ \A s \in Streams : Ev.total[s] = sy'.out[s]
    /\ \A c \in Counters : Ev.cnt[c] = sy'.cnt[c]
    /\ Ev.heap = 0
TraceSpec == TraceInit /\ [][TraceNext]_<<sy, l>>
==============================================================================
