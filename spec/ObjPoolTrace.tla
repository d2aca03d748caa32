----------------------------- MODULE ObjPoolTrace ----------------------------
EXTENDS ObjPool, TraceBase
Obs == /\ (Exists' => Ev.avail = Avail')
       /\ \A s \in Slots : IsLive(s)' => Ev.val[s] = blk'[s].val
       /\ (~Exists' => Ev.heap = 0)
TraceInit == Init /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ Clear
       \/ IsEvent("none")  /\ UNCHANGED pvars
       \/ IsEvent("make")  /\ Make(Ev.n, Ev.m, Ev.r)
                           /\ (~Ev.r => (Ev.n = 0 \/ Ev.m = 0 \/ Huge(Ev.n) \/ Huge(Ev.m) \/ (Ev.buf /\ (Ev.m < 8 \/ Ev.m % 8 # 0)) \/ Ev.oom)) /\ (Ev.oom => ~Ev.r)
       \/ IsEvent("alloc") /\ IF Ev.r THEN Alloc(Ev.s, Ev.off) ELSE Exhausted
       \/ IsEvent("write") /\ Write(Ev.s, Ev.v)
       \/ IsEvent("free")  /\ Release(Ev.s)
       \/ IsEvent("cleanup") /\ Release(Ev.s) /\ Ev.null
       \/ IsEvent("foreign") /\ Foreign
       \/ IsEvent("clear") /\ Clear
       \/ IsEvent("dead")  /\ ~Exists /\ UNCHANGED pvars /\ Ev.got = 0   \* without a store nothing is granted
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<blk, cells, osize, l>>
==============================================================================
