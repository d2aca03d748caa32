----------------------------- MODULE ByteBufTrace ----------------------------
EXTENDS ByteBuf, TraceBase
Q(o) == IF o = 1 THEN 2 ELSE 1
Obs == /\ \A o \in Objs : /\ Ev.st[o].exists = Exists(o)'
                          /\ Ev.st[o].bytes = Bytes(o)'
                          /\ Ev.st[o].len = Len(Ev.st[o].bytes)
                          /\ Ev.st[o].cap >= Ev.st[o].len
       /\ ((~Exists(1) /\ ~Exists(2))' => Ev.heap = 0)
P == IF Ev.self THEN Ev.o ELSE Q(Ev.o)
\* a refusal needs a reason
Reason(b) == (~Ev.r => (Ev.oom \/ b)) /\ (Ev.oom => ~Ev.r)
TraceInit == BufInit /\ l = 1
TNew == IF Exists(Ev.o) THEN Ev.r = FALSE /\ Same
        ELSE New(Ev.o, Ev.r) /\ Reason(FALSE)
NoBytes == {"nofile", "unreadable", "dir"}    \* no such file, a stream that cannot be read, a directory
TraceNext ==
    /\ \/ IsEvent("reset")   /\ ResetAll
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("new")     /\ TNew
       \/ IsEvent("release") /\ Release(Ev.o)
       \/ IsEvent("clear")   /\ Clear(Ev.o)
       \/ IsEvent("insert")  /\ Insert(Ev.o, Ev.v, Ev.r)
                             /\ Reason(Ev.kind \in NoBytes \/ (Ev.kind \in {"file", "filename"} /\ Ev.v = <<>>))
                             /\ (Ev.kind \in NoBytes => ~Ev.r)
       \/ IsEvent("zeros")   /\ Zeros(Ev.o, Ev.n, Ev.r) /\ Reason(Huge(Ev.n) \/ Ev.n > 1000000)
       \/ IsEvent("del")     /\ Del(Ev.o, Ev.i, Ev.n, Ev.r)
       \* an empty source may be refused
       \/ IsEvent("append")  /\ AppendBuf(Ev.o, P, Ev.r) /\ Reason(Bytes(P) = <<>>)
       \/ IsEvent("copy")    /\ CopyBuf(Ev.o, P, Ev.r) /\ Reason(Bytes(P) = <<>>)
       \/ IsEvent("to_file") /\ IF Ev.room < 0 \/ Ev.room >= Len(Bytes(Ev.o)) THEN ToFile(Ev.o, Ev.file, Ev.r) /\ (~Ev.r => Bytes(Ev.o) = <<>>)
                                ELSE ToFullFile(Ev.o, Ev.room, Ev.file, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<buf, l>>
==============================================================================
