----------------------------- MODULE PluginTrace -----------------------------
EXTENDS Plugin, TraceBase
\* callbacks are logged as [1 load | 2 unload, reloading, right user data, version seen, right path]
LoadCb(re, v) == <<1, IF re THEN 1 ELSE 0, 1, v, 1>>
UnloadCb(re, v) == <<2, IF re THEN 1 ELSE 0, 1, v, 1>>
If(c, s) == IF c THEN s ELSE <<>>
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN pg'.live[p].n + Sum(S \ {p})
View(x) == LET h == pg'.h[x] IN /\ Ev.lib = (h.ver # 0) /\ Ev.set = h.set
                                /\ IF h.set THEN Ev.same /\ Ev.base = h.base ELSE TRUE
World == /\ Ev.opened = Sum(Paths)
         /\ (Ev.heap = 0) = (\A x \in Handles : ~pg'.h[x].set)
TraceInit == PluginInit /\ l = 1
Idle == Ev.log = <<>> /\ View(Ev.h)
TraceNext ==
    /\ \/ /\ IsEvent("reset") /\ Ev.texts = 0
          /\ pg' = [file |-> [p \in Paths |-> [ver |-> 0, mtime |-> 0]], live |-> [p \in Paths |-> [ver |-> 0, n |-> 0]], h |-> [x \in Handles |-> Fresh]]
          /\ hist' = [x \in Handles |-> NoHist]
       \/ IsEvent("install") /\ DoInstall(Ev.p, Ev.ver, Ev.mtime)
       \/ IsEvent("remove") /\ DoRemove(Ev.p)
       \/ IsEvent("touch") /\ DoTouch(Ev.p, Ev.mtime)
       \/ /\ IsEvent("load") /\ DoLoad(Ev.h, Ev.p, Ev.oom, Ev.race, Ev.ver, Ev.mtime) /\ View(Ev.h)
          /\ LET o == LoadOutcome(Ev.p, Ev.oom) IN Ev.ret = o.ret /\ Ev.err = o.err /\ Ev.log = If(o.ret /\ Ev.cb, <<LoadCb(FALSE, o.ver)>>)
       \/ /\ IsEvent("reload") /\ Ev.base \in ReloadBases(Ev.h) /\ DoReload(Ev.h, Ev.base, Ev.race, Ev.ver, Ev.mtime) /\ View(Ev.h)
          /\ LET o == ReloadOutcome(Ev.h)  h == pg.h[Ev.h] IN
                 /\ Ev.ret = o.ret /\ Ev.err = o.err
                 /\ Ev.log = If(h.set /\ h.ver # 0 /\ Ev.cbu, <<UnloadCb(TRUE, h.ver)>>) \o If(o.ret /\ Ev.cbl, <<LoadCb(TRUE, ReloadVer(Ev.h))>>)
       \/ /\ IsEvent("changed") /\ DoChanged(Ev.h) /\ Idle /\ Ev.ret = Changed(Ev.h)
          /\ IF pg.h[Ev.h].set THEN Ev.err # NoPath ELSE Ev.err = NoPath
       \/ /\ IsEvent("get") /\ UNCHANGED <<pg, hist>> /\ Idle
          /\ LET h == pg.h[Ev.h] IN /\ Ev.err = (IF h.ver = 0 THEN NoLib ELSE NoErr)
                                    /\ Ev.val = Object(h.ver, Ev.name) /\ Ev.null = (Object(h.ver, Ev.name) = 0)
       \/ /\ IsEvent("clear") /\ DoClear(Ev.h) /\ View(Ev.h) /\ Ev.base = 0 /\ Ev.err = NoErr
          /\ LET h == pg.h[Ev.h] IN IF h.ver # 0 \/ ~Ev.cb THEN Ev.log = If(h.ver # 0 /\ Ev.cb, <<UnloadCb(FALSE, h.ver)>>)
                                    ELSE Len(Ev.log) <= 1 /\ (\A i \in 1..Len(Ev.log) : Ev.log[i][1] = 2 /\ Ev.log[i][4] = 0)
    /\ World
TraceSpec == TraceInit /\ [][TraceNext]_<<pg, hist, l>>
==============================================================================
