---------------------------- MODULE BuffersTrace -----------------------------
EXTENDS Buffers, TraceBase
TraceInit == BufInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset")   /\ bf' = NoBuf
       \/ IsEvent("calloc")  /\ Ev.r = ~Ev.oom /\ Calloc(Ev.n, Ev.cap, Ev.r)
       \/ IsEvent("fill")    /\ Fill(Ev.st.items)
       \/ IsEvent("recalloc") /\ Ev.r = ~Ev.oom /\ Recalloc(Ev.cap, Ev.r)
       \/ IsEvent("shift")   /\ Shift(Ev.i, Ev.k, Ev.r)
       \/ IsEvent("cleanup") /\ Cleanup
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("dup")     /\ DupData(Ev.d, ~Ev.oom, Ev.b) /\ Ev.null = Ev.oom
       \/ IsEvent("duptext") /\ DupText(Ev.d, Ev.len, ~Ev.oom, Ev.b) /\ Ev.null = Ev.oom /\ Ev.term
       \/ IsEvent("switch")  /\ Switch(Ev.d, Ev.alts, Ev.r)
       \/ IsEvent("sprintf") /\ SprintfAlloc(Ev.d, Ev.v, ~Ev.oom, Ev.b) /\ Ev.null = Ev.oom
       \/ IsEvent("mempcpy") /\ MemPCpy(Ev.d, Ev.b, Ev.end)
       \/ IsEvent("memccpy") /\ MemCCpy(Ev.d, Ev.c, Ev.b, Ev.end)
       \/ IsEvent("load")    /\ LoadFile(Ev.exists, Ev.d, Ev.oom, Ev.null, Ev.size, Ev.b) /\ Ev.term
       \/ IsEvent("size")    /\ FileSize(Ev.d, Ev.r)
    /\ Ev.st.items = bf'.items /\ Ev.st.cap = bf'.cap /\ Ev.st.n = bf'.n /\ Ev.st.zero
    /\ Ev.heap = bf'.n
TraceSpec == TraceInit /\ [][TraceNext]_<<bf, l>>
==============================================================================
