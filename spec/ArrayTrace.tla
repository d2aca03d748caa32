------------------------------ MODULE ArrayTrace -----------------------------
EXTENDS Array, TraceBase

Q(o) == IF o = 1 THEN 2 ELSE 1
\* the projected state logged by the driver
Obs ==
    /\ \A o \in Objs :
         /\ Ev.st[o].live  = Live(o)'
         /\ Ev.st[o].cap   = Cap(o)'
         /\ Ev.st[o].len   = N(o)'
         /\ Ev.st[o].items = Items(o)'
         /\ Ev.st[o].empty = (N(o) = 0)'
         /\ Ev.st[o].full  = (N(o) >= Cap(o))'
    /\ (Exists(1) /\ Exists(2))' => /\ Ev.lendiff = AbsDiff(N(1), N(2))'
                                    /\ Ev.capdiff = AbsDiff(Cap(1), Cap(2))'
    /\ (~Exists(1) /\ ~Exists(2))' => Ev.heap = 0
\* a failed allocation must be reported and must not change anything
Fault(r) == Ev.oom => (~r /\ arr' = arr)
P == IF Ev.self THEN Ev.o ELSE Q(Ev.o)
C == Ev.st[Ev.o].cap

TNew ==
    IF Exists(Ev.o) THEN Ev.r = FALSE /\ Same
    ELSE /\ IF Ev.kind < 2 THEN New(Ev.o, Ev.n, C, Ev.r) ELSE FromBuffer(Ev.o, Ev.n, Ev.r)
         /\ Fault(Ev.r)
         /\ ((~Ev.oom /\ ~Huge(Ev.n) /\ Ev.n < 1000) => Ev.r)

TraceInit == ArrayInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset")  /\ ResetAll
       \/ IsEvent("none")   /\ Same
       \/ IsEvent("new")    /\ TNew
       \/ IsEvent("release") /\ Release(Ev.o)
       \/ IsEvent("clear")  /\ Clear(Ev.o)
       \/ IsEvent("grow")   /\ Grow(Ev.o, C, Ev.r) /\ Fault(Ev.r) /\ (~Ev.oom => Ev.r)
       \/ IsEvent("resize") /\ Resize(Ev.o, Ev.n, C, Ev.r) /\ Fault(Ev.r)
                            \* a refusal needs a reason: failed or impossible allocation, or nothing to change
                            /\ (~Ev.r => (Ev.oom \/ Huge(Ev.n) \/ Ev.n > 1000000 \/ Ev.n <= Cap(Ev.o)))
       \/ IsEvent("shrink") /\ Shrink(Ev.o, Ev.exact, C, Ev.r) /\ Fault(Ev.r)
                            /\ ((Ev.exact /\ ~Ev.oom /\ N(Ev.o) > 0 /\ Cap(Ev.o) > 4) => C = N(Ev.o))
       \/ IsEvent("wipe")   /\ Wipe(Ev.o)
       \/ IsEvent("add")    /\ Add(Ev.o, P, Ev.r)
       \/ IsEvent("copy")   /\ Copy(Ev.o, P, Ev.r)
       \/ IsEvent("insert") /\ Insert(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("append") /\ AppendItem(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("fill")   /\ Fill(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("pop")    /\ Pop(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("pop_ex") /\ Pop(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("peek")   /\ Peek(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("peek_ex") /\ Peek(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("get")    /\ Get(Ev.o, Ev.i, Ev.v, Ev.r)
       \/ IsEvent("get_ex") /\ Get(Ev.o, Ev.i, Ev.v, Ev.r)
       \/ IsEvent("set")    /\ Set(Ev.o, Ev.i, Ev.v, Ev.r)
       \/ IsEvent("swap")   /\ Swap(Ev.o, Ev.r)
       \/ IsEvent("shift_up") /\ ShiftUp(Ev.o, Ev.i, Ev.n, Ev.r)
       \/ IsEvent("count")  /\ Count(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("index_of") /\ IndexOf(Ev.o, Ev.v, Ev.i, Ev.r)
       \/ IsEvent("del_index") /\ DelIndex(Ev.o, Ev.i, Ev.r)
       \/ IsEvent("del_range") /\ DelRange(Ev.o, Ev.i, Ev.n, Ev.r)
       \/ IsEvent("del_val") /\ DelVal(Ev.o, Ev.v, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<arr, l>>
==============================================================================
