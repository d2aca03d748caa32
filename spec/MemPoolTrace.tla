----------------------------- MODULE MemPoolTrace ----------------------------
EXTENDS MemPool, TraceBase
Obs == /\ (Exists' => \E x \in {Ev.rem} : RemainingOk(x)')
       /\ \A s \in Slots : IsLive(s)' => Ev.val[s] = blk'[s].val
       /\ (~Exists' => Ev.heap = 0)
TraceInit == Init /\ l = 1
TAlloc == IF Ev.r THEN Alloc(Ev.s, Ev.n, Ev.off) ELSE Refuse(Ev.n)
TRealloc == IF ~IsLive(Ev.s) THEN TAlloc          \* no block: as an ordinary request
            ELSE IF Ev.r THEN Realloc(Ev.s, Ev.n, Ev.off) /\ Ev.pre = blk[Ev.s].val
            ELSE Refuse(Ev.n)
TraceNext ==
    /\ \/ IsEvent("reset") /\ Clear
       \/ IsEvent("none")  /\ UNCHANGED mvars
       \/ IsEvent("make")  /\ Make(Ev.n, Ev.r) /\ (~Ev.r => (Ev.n = 0 \/ Huge(Ev.n) \/ (Ev.buf /\ Ev.n <= H) \/ Ev.oom)) /\ (Ev.oom => ~Ev.r)
       \/ IsEvent("alloc") /\ TAlloc
       \/ IsEvent("realloc") /\ TRealloc
       \/ IsEvent("write") /\ Write(Ev.s, Ev.v)
       \/ IsEvent("free")  /\ Release(Ev.s) /\ Ev.r
       \/ IsEvent("cleanup") /\ Release(Ev.s) /\ Ev.r /\ Ev.null
       \/ IsEvent("foreign") /\ Exists /\ UNCHANGED mvars /\ Ev.refused
       \/ IsEvent("clear") /\ Clear
       \/ IsEvent("dead")  /\ ~Exists /\ UNCHANGED mvars /\ Ev.got = 0   \* without a store nothing is granted
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<blk, size, holes, virgin, hist, l>>
==============================================================================
