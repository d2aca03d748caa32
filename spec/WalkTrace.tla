------------------------------ MODULE WalkTrace ------------------------------
EXTENDS Walk, TraceBase
Wanted == IF Ev.ext = <<>> THEN DefaultExt ELSE Ev.ext[1]
\* reported paths, relative to the walked directory; <<>> where a report does not lie below it
Rel(f) == LET D == Split(Ev.dir)  S == Split(f[2])
          IN  IF f[1] = 1 /\ Len(S) > Len(D) /\ SubSeq(S, 1, Len(D)) = D /\ Last(S) = f[3] THEN SubSeq(S, Len(D) + 1, Len(S)) ELSE <<>>
Found == [i \in 1..Len(Ev.found) |-> Rel(Ev.found[i])]
Sane == Ev.n = Len(Ev.found) /\ Ev.fds = 0 /\ Ev.heap /\ Ev.ud
TraceInit == fs = NoFiles /\ wild = {} /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ fs' = NoFiles /\ wild' = {}
    \/ IsEvent("deep") /\ wild' = wild \union {Ev.name} /\ UNCHANGED fs
    \/ IsEvent("dir") /\ Add(Ev.dir, Ev.name, [k |-> "dir", to |-> <<>>])
    \/ IsEvent("file") /\ Add(Ev.dir, Ev.name, [k |-> "file", to |-> <<>>])
    \/ IsEvent("pipe") /\ Add(Ev.dir, Ev.name, [k |-> "pipe", to |-> <<>>])
    \/ IsEvent("link") /\ Add(Ev.dir, Ev.name, [k |-> "link", to |-> Split(Ev.to)])
    \/ IsEvent("walk") /\ UNCHANGED <<fs, wild>> /\ Sane /\ WalkOK(Ev.dir, Wanted, Ev.cwd, Ev.oom, Ev.ret, Found)
    \/ /\ IsEvent("walkrm") /\ Sane /\ UNCHANGED wild
       /\ LET D == Split(Ev.dir) IN
          IF KindOf(D) # "dir" THEN ~Ev.ret /\ Ev.found = <<>> /\ UNCHANGED fs
          ELSE /\ WalkOK(Ev.dir, Wanted, Ev.cwd, TRUE, Ev.ret, Found) /\ Ev.ret
               /\ IF Must(Target(D)[1], <<>>, Wanted) # {} THEN Ev.n >= 1 ELSE TRUE
               /\ IF Ev.n = 0 THEN UNCHANGED fs
                  ELSE LET t == Resolve(Target(D)[1], Found[1]) IN fs' = Only(IF t = <<>> THEN None ELSE t[1])
TraceSpec == TraceInit /\ [][TraceNext]_<<fs, wild, l>>
==============================================================================
