----------------------------- MODULE BiStackTrace ----------------------------
EXTENDS BiStack, TraceBase
Obs == /\ Ev.margin = margin'
       /\ \A s \in Slots : (IsLive(s)' /\ blk'[s].val >= 0) => Ev.val[s] = blk'[s].val
       /\ (~Exists' => Ev.heap = 0)
TraceInit == Init /\ l = 1
TAlloc == IF Ev.n = 0 THEN Exists /\ UNCHANGED bvars
          ELSE IF Ev.r THEN Alloc(Ev.side, Ev.s, Ev.n, Ev.off) ELSE Refuse(Ev.n)
D == IF Ev.side = "all" THEN {"front", "back"} ELSE {Ev.side}
TraceNext ==
    /\ \/ IsEvent("reset")  /\ Clear
       \/ IsEvent("none")   /\ UNCHANGED bvars
       \/ IsEvent("make")   /\ IF Ev.oom THEN ~Exists /\ ~Ev.r /\ UNCHANGED bvars ELSE Make(Ev.n, Ev.margin, Ev.r)
       \/ IsEvent("alloc")  /\ TAlloc
       \/ IsEvent("write")  /\ Write(Ev.s, Ev.v)
       \/ IsEvent("giveup") /\ Reset(D)
       \/ IsEvent("resize") /\ Resize(Ev.n, Ev.margin, Ev.r) /\ (Ev.oom => ~Ev.r) /\ (~Ev.r => (Huge(Ev.n) \/ Ev.n = 0 \/ Ev.oom))
       \/ IsEvent("clear")  /\ Clear
       \/ IsEvent("dead")  /\ ~Exists /\ UNCHANGED bvars /\ Ev.got = 0   \* without a store nothing is granted
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<blk, size, margin, side, l>>
==============================================================================
