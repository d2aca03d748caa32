----------------------------- MODULE MathTrace -------------------------------
EXTENDS Math, TraceBase
TraceInit == MathInit /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ mt' = [env |-> <<>>]
    \/ IsEvent("bind") /\ Bind(IF Ev.f = "" THEN Var(Ev.name, Norm(Ev.n, Ev.d)) ELSE Fun(Ev.name, Ev.f))
    \/ IsEvent("sum") /\ Ev.heap = 0 /\ Series(Ev.s, Ev.u, Ev.n, Ev.mode, Ev.res)
    \/ IsEvent("unbind") /\ Unbind(Ev.name)
    \/ IsEvent("eval") /\ Ev.again /\ Ev.data /\ Ev.same /\ Ev.heap = 0 /\ Eval(Ev.s, Ev.mode, Ev.res, Ev.asked)
TraceSpec == TraceInit /\ [][TraceNext]_<<mt, l>>
==============================================================================
