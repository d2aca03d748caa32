---------------------------- MODULE IntHelpTrace -----------------------------
EXTENDS IntHelp, TraceBase
TraceInit == IntInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ ih' = [base |-> <<>>]
       \/ IsEvent("word")  /\ WordFacts(Ev.x, Ev.lg2, Ev.lg10, Ev.d2, Ev.c2, Ev.d10, Ev.c10, Ev.c10i, Ev.ceil, Ev.next)
       \/ IsEvent("align") /\ Align(Ev.x, Ev.a, Ev.al, Ev.pad)
       \/ IsEvent("bounds") /\ Bounds(Ev.x, Ev.hi, Ev.lo, Ev.u, Ev.p, Ev.s)
       \/ IsEvent("mask")  /\ Mask(Ev.n, Ev.m)
       \/ IsEvent("ptr")   /\ PtrAligned(Ev.x, Ev.a, Ev.r)
       \/ IsEvent("base")  /\ (IF Ev.oom THEN NoTables(Ev.num) ELSE MakeTables(Ev.x, Ev.num, Ev.pow))
       \/ IsEvent("logn")  /\ (IF Ev.none THEN ih.base = <<>> /\ UNCHANGED ih ELSE LogN(Ev.x, Ev.lg, Ev.d, Ev.c, Ev.ci))
       \/ IsEvent("hash")  /\ Hashes(Ev.d, Ev.v, Ev.seed, Ev.h, Ev.ptr)
    /\ Ev.heap = (IF ih'.base = <<>> THEN 0 ELSE 1)
TraceSpec == TraceInit /\ [][TraceNext]_<<ih, l>>
==============================================================================
