------------------------------ MODULE CfgTrace -------------------------------
EXTENDS Cfg, TraceBase
TraceInit == CfgInit /\ l = 1
Num(v) == M!Norm(v[1], v[2])
Given == CASE Ev.t = "int" -> Ev.v
           [] Ev.t = "bool" -> Ev.v
           [] Ev.t = "str" -> Known(Ev.v)
           [] Ev.t = "float" -> Num(Ev.v)
           [] Ev.t = "color" -> Ev.v
           [] Ev.t = "vec" -> [k \in 1..4 |-> Num(Ev.v[k])]
           [] OTHER -> 0
TraceNext ==
    \/ IsEvent("reset") /\ cf' = [files |-> <<>>, tree |-> <<>>] /\ Ev.heap = 0
    \/ IsEvent("file") /\ PutFile(Ev.n, Ev.c)
    \/ IsEvent("parse") /\ Ev.heap = 0 /\ Ev.same /\ Parse(Ev.s, Ev.tree)
    \/ IsEvent("load") /\ Ev.heap = 0 /\ Load(Ev.n, Ev.ok, Ev.tree)
    \/ IsEvent("free") /\ Ev.heap = 0 /\ Ev.null /\ Release
    \/ IsEvent("get") /\ Get(Ev.p, Ev.typ, Ev.got, Ev.v)
    \/ IsEvent("set") /\ (IF OddPath(Ev.p) THEN cf' = [cf EXCEPT !.tree = <<Ev.tree>>] ELSE Set(Ev.p, Ev.t, Given, Ev.t = "null" \/ Ev.conv, Ev.r, Ev.tree))
    \/ IsEvent("render") /\ Render(Ev.text, Ev.tree)
    \/ IsEvent("build") /\ Ev.r /\ Build(Ev.n, Ev.over, Ev.c, Ev.ok, Ev.tree)
    \/ IsEvent("buildlim") /\ BuildLimited(Ev.n, Ev.room, Ev.r, Ev.c, Ev.ok, Ev.tree)
    \/ IsEvent("builddir") /\ ~Ev.r /\ UNCHANGED cf
    \/ IsEvent("calc") /\ Calc(Ev.p, Ev.res)
TraceSpec == TraceInit /\ [][TraceNext]_<<cf, l>>
==============================================================================
