------------------------------ MODULE MCPlugin -------------------------------
EXTENDS Plugin, MCBase
OddPaths == {0, -1, -2, -3, -4}
vars == <<pg, hist, op>>
MCInit == PluginInit /\ op = <<"reset">>
Do(w) == op' = w
AllVers == Versions \union {-1}
BaseOf(x) == CHOOSE b \in ReloadBases(x) : TRUE
MCNext ==
    \/ \E p \in Paths, v \in AllVers, m \in Times : pg.file[p] # [ver |-> v, mtime |-> m] /\ DoInstall(p, v, m) /\ Do(<<"install", p, v, m>>)
    \/ \E p \in Paths, m \in Times : Exists(p) /\ pg.file[p].mtime # m /\ DoTouch(p, m) /\ Do(<<"touch", p, m>>)
    \/ \E p \in Paths : Exists(p) /\ DoRemove(p) /\ Do(<<"remove", p>>)
    \/ \E x \in Handles, p \in Paths \union OddPaths : ~pg.h[x].set /\ DoLoad(x, p, FALSE, FALSE, 0, 0) /\ Do(<<"load", x, p, 1>>)
    \/ \E x \in Handles, p \in Paths, v \in AllVers, m \in Times : ~pg.h[x].set /\ DoLoad(x, p, FALSE, TRUE, v, m) /\ Do(<<"load", x, p, 1, v, m>>)
    \/ \E x \in Handles : DoReload(x, IF ReloadOutcome(x).ret THEN BaseOf(x) ELSE pg.h[x].base, FALSE, 0, 0) /\ Do(<<"reload", x, 1, 1>>)
    \/ \E x \in Handles, v \in AllVers, m \in Times : pg.h[x].set /\ DoReload(x, IF ReloadOutcome(x).ret THEN BaseOf(x) ELSE pg.h[x].base, TRUE, v, m) /\ Do(<<"reload", x, 1, 1, v, m>>)
    \/ \E x \in Handles : DoChanged(x) /\ Do(<<"changed", x>>)
    \/ \E x \in Handles, n \in 0..2 : UNCHANGED <<pg, hist>> /\ Do(<<"get", x, n>>)
    \/ \E x \in Handles : DoClear(x) /\ Do(<<"clear", x, 1>>)
MCSpec == MCInit /\ [][MCNext]_vars
View == <<pg, hist>>
Emit == Edge(pg, pg')
==============================================================================
