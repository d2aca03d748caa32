------------------------------- MODULE ByteBuf -------------------------------
(* bytebuffer/bytebuffer.c: an append-only byte string (two buffers).        *)
EXTENDS SeqOps
VARIABLE buf        \* buf[o] = [exists |-> BOOLEAN, bytes |-> sequence of 0..255]
Objs == {1, 2}
None == [exists |-> FALSE, bytes |-> <<>>]
BufInit == buf = [o \in Objs |-> None]
Bytes(o)  == buf[o].bytes
Exists(o) == buf[o].exists
Put(o, s) == buf' = [buf EXCEPT ![o].bytes = s]
Same == buf' = buf

New(o, r) == /\ ~Exists(o)
             /\ buf' = [buf EXCEPT ![o].exists = r]
Clear(o)   == Exists(o) /\ Put(o, <<>>)
Release(o) == buf' = [buf EXCEPT ![o] = None]
ResetAll   == buf' = [o \in Objs |-> None]
\* every kind of insertion appends the bytes of the value, or is refused without effect
Insert(o, v, r) ==
    /\ Exists(o)
    /\ Put(o, IF r THEN Bytes(o) \o v ELSE Bytes(o))
Zeros(o, n, r) ==
    /\ Exists(o)
    /\ r => ~Huge(n)
    /\ Put(o, IF r THEN Bytes(o) \o Repeat(0, n) ELSE Bytes(o))
Del(o, i, n, r) ==                       \* an amount of zero counts as one
    /\ Exists(o)
    /\ r = InRange(Bytes(o), i)
    /\ Put(o, IF r THEN RemoveRange(Bytes(o), i, IF n = 0 THEN 1 ELSE n) ELSE Bytes(o))
AppendBuf(o, p, r) ==
    /\ Exists(o) /\ Exists(p)
    /\ Put(o, IF r THEN Bytes(o) \o Bytes(p) ELSE Bytes(o))
CopyBuf(o, p, r) ==
    /\ Exists(o) /\ Exists(p)
    /\ Put(o, IF r THEN Bytes(p) ELSE Bytes(o))
ToFile(o, file, r) ==
    /\ Exists(o)
    /\ r => file = Bytes(o)
    /\ ~r => file = <<>>
    /\ Same
\* a file that takes only so many bytes: failure is reported
ToFullFile(o, room, file, r) == Exists(o) /\ ~r /\ file = Take(Bytes(o), room) /\ Same

TypeOK == \A o \in Objs : ~Exists(o) => Bytes(o) = <<>>
==============================================================================
