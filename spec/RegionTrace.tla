----------------------------- MODULE RegionTrace -----------------------------
EXTENDS Region, TraceBase
\* every live block is seen with the contents its owner gave it
Obs == /\ Ev.rem = rem' /\ Ev.exists = Exists'
       /\ \A s \in Slots : IsLive(s)' => Ev.val[s] = blk'[s].val
       /\ (~Exists' => Ev.heap = 0)
TraceInit == Init /\ l = 1
TAlloc == IF Ev.r THEN Alloc(Ev.s, Ev.n, Ev.off) ELSE Refuse(Ev.n)
TraceNext ==
    /\ \/ IsEvent("reset") /\ Clear
       \/ IsEvent("none")  /\ UNCHANGED rvars
       \/ IsEvent("make")  /\ IF Ev.oom THEN ~Exists /\ UNCHANGED rvars ELSE Make(Ev.n, Ev.rem)
       \/ IsEvent("alloc") /\ TAlloc
       \/ IsEvent("write") /\ Write(Ev.s, Ev.v)
       \/ IsEvent("clear") /\ Clear
       \/ IsEvent("dead")  /\ ~Exists /\ UNCHANGED rvars /\ Ev.got = 0   \* without a store nothing is granted
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<blk, size, rem, l>>
==============================================================================
