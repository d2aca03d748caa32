------------------------------- MODULE Plugin --------------------------------
(* Plugin handles over library files that change underneath them.            *)
(* A library file holds a version (0: no such file, -1: not a library) and a  *)
(* modification time.  The system keeps one instance per path open: as long   *)
(* as some handle holds it, opening the path again yields that instance.      *)
(* Paths <= 0 are the odd ones: 0 and -2 can be opened but name no file,      *)
(* -1, -3 and -4 cannot be opened.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Handles, Paths, Versions, Times
VARIABLES pg, hist               \* hist: per handle, libraries announced minus taken back, and the file time of the code in use
NoErr == 0   NoPath == 1   BadPath == 2   LoadFail == 3   NoLib == 4   CantReload == 5
Fresh == [set |-> FALSE, path |-> 0, base |-> 0, ver |-> 0]
NoHist == [n |-> 0, at |-> 0, told |-> FALSE]
PluginInit == /\ pg = [file |-> [p \in Paths |-> [ver |-> 0, mtime |-> 0]], live |-> [p \in Paths |-> [ver |-> 0, n |-> 0]], h |-> [x \in Handles |-> Fresh]]
              /\ hist = [x \in Handles |-> NoHist]
TypeOK == /\ \A p \in Paths : pg.live[p].n = Cardinality({x \in Handles : pg.h[x].path = p /\ pg.h[x].ver # 0})
          /\ \A x \in Handles : (pg.h[x].ver # 0) => (pg.h[x].set /\ pg.live[pg.h[x].path].ver = pg.h[x].ver)
          /\ \A p \in Paths : (pg.live[p].n = 0) = (pg.live[p].ver = 0)
\* every library a handle got was announced once and not yet taken back
Balanced == \A x \in Handles : hist[x].n = (IF pg.h[x].ver # 0 THEN 1 ELSE 0)
Exists(p) == IF p \in Paths THEN pg.file[p].ver # 0 ELSE p \in {-3, -4}
Changed(x) == pg.h[x].set /\ Exists(pg.h[x].path) /\ pg.file[pg.h[x].path].mtime # pg.h[x].base
\* a file that is no longer the one the code in use came from is noticed, unless that was told already
Noticed == \A x \in Handles : LET h == pg.h[x] IN
    (h.ver # 0 /\ Exists(h.path) /\ pg.file[h.path].mtime # hist[x].at /\ ~hist[x].told) => Changed(x)
\* what opening a path yields: a version, or 0
OpenAs(live, file, p) == IF p \in Paths THEN IF live[p].n > 0 THEN live[p].ver ELSE IF file[p].ver > 0 THEN file[p].ver ELSE 0 ELSE 0
Opened(live, p, v) == [live EXCEPT ![p] = [ver |-> v, n |-> @.n + 1]]
Closed(live, p) == [live EXCEPT ![p] = IF @.n = 1 THEN [ver |-> 0, n |-> 0] ELSE [@ EXCEPT !.n = @ - 1]]
\* the file as it is after the call (it may be replaced while it is being opened)
FileAfter(p, race, ver, mtime) == IF race /\ p \in Paths THEN [pg.file EXCEPT ![p] = [ver |-> ver, mtime |-> mtime]] ELSE pg.file
\* outcome of a load: [ret, err, ver]
LoadOutcome(p, oom) ==
    LET v == OpenAs(pg.live, pg.file, p)
    IN  IF p \in {0, -2} THEN [ret |-> FALSE, err |-> BadPath, ver |-> 0]
        ELSE IF v = 0 THEN [ret |-> FALSE, err |-> LoadFail, ver |-> 0]
        ELSE IF ~Exists(p) THEN [ret |-> FALSE, err |-> BadPath, ver |-> 0]
        ELSE IF oom THEN [ret |-> FALSE, err |-> BadPath, ver |-> 0]
        ELSE [ret |-> TRUE, err |-> NoErr, ver |-> v]
DoLoad(x, p, oom, race, ver, mtime) ==
    LET o == LoadOutcome(p, oom)  f == FileAfter(p, race, ver, mtime)
    IN  IF o.ret
        THEN /\ pg' = [file |-> f, live |-> Opened(pg.live, p, o.ver), h |-> [pg.h EXCEPT ![x] = [set |-> TRUE, path |-> p, base |-> pg.file[p].mtime, ver |-> o.ver]]]
             /\ hist' = [hist EXCEPT ![x] = [n |-> @.n + 1, at |-> pg.file[p].mtime, told |-> FALSE]]
        ELSE /\ pg' = [pg EXCEPT !.file = f]
             /\ UNCHANGED hist
\* outcome of a reload
ReloadVer(x) == LET h == pg.h[x] IN OpenAs(IF h.ver # 0 THEN Closed(pg.live, h.path) ELSE pg.live, pg.file, h.path)
ReloadOutcome(x) == IF ~pg.h[x].set THEN [ret |-> FALSE, err |-> NoPath]
                    ELSE IF ReloadVer(x) = 0 THEN [ret |-> FALSE, err |-> CantReload] ELSE [ret |-> TRUE, err |-> NoErr]
\* a reload takes note of the time of the file it loads; whether a failing one does is open
ReloadBases(x) == LET h == pg.h[x] IN
    IF ~h.set \/ ~Exists(h.path) THEN {h.base} ELSE IF ReloadVer(x) # 0 THEN {pg.file[h.path].mtime} ELSE {h.base, pg.file[h.path].mtime}
DoReload(x, base, race, ver, mtime) ==
    LET h == pg.h[x]  v == ReloadVer(x)  closed == IF h.ver # 0 THEN Closed(pg.live, h.path) ELSE pg.live
    IN  IF ~h.set THEN UNCHANGED <<pg, hist>>
        ELSE /\ pg' = [file |-> FileAfter(h.path, race, ver, mtime), live |-> IF v # 0 THEN Opened(closed, h.path, v) ELSE closed, h |-> [pg.h EXCEPT ![x] = [@ EXCEPT !.ver = v, !.base = base]]]
             /\ hist' = [hist EXCEPT ![x] = [n |-> @.n + (IF v # 0 THEN 1 ELSE 0) - (IF h.ver # 0 THEN 1 ELSE 0),
                                         at |-> IF Exists(h.path) THEN pg.file[h.path].mtime ELSE @.at, told |-> ~Exists(h.path)]]
DoChanged(x) == /\ pg' = IF Changed(x) THEN [pg EXCEPT !.h[x].base = pg.file[pg.h[x].path].mtime] ELSE pg
                /\ hist' = IF Changed(x) THEN [hist EXCEPT ![x].told = TRUE] ELSE hist
\* objects: 0 is in every version, 1 only in version 2, 2 in none; the value, or 0 for none
Object(v, name) == CASE v = 0 -> 0 [] name = 0 -> v [] name = 1 /\ v = 2 -> 20 [] OTHER -> 0
DoClear(x) == LET h == pg.h[x] IN
    /\ pg' = [pg EXCEPT !.live = IF h.ver # 0 THEN Closed(@, h.path) ELSE @, !.h[x] = Fresh]
    /\ hist' = [hist EXCEPT ![x] = [NoHist EXCEPT !.n = hist[x].n - (IF h.ver # 0 THEN 1 ELSE 0)]]
DoInstall(p, ver, mtime) == pg' = [pg EXCEPT !.file[p] = [ver |-> ver, mtime |-> mtime]] /\ UNCHANGED hist
DoTouch(p, mtime) == pg' = (IF Exists(p) THEN [pg EXCEPT !.file[p].mtime = mtime] ELSE pg) /\ UNCHANGED hist
DoRemove(p) == pg' = [pg EXCEPT !.file[p] = [ver |-> 0, mtime |-> 0]] /\ UNCHANGED hist
==============================================================================
