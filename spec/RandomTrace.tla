----------------------------- MODULE RandomTrace -----------------------------
EXTENDS Random, TraceBase
TraceInit == RndInit /\ l = 1
TraceNext ==
    \/ IsEvent("reset") /\ rnd' = [g \in Gens |-> None]
    \/ IsEvent("seed")  /\ Seed(Ev.g, Ev.v)
    \/ IsEvent("draw")  /\ Draw(Ev.g, Ev.n, Ev.out)
    \* doubles: the number over 2^32 - 1
    \/ IsEvent("drawf") /\ Draw(Ev.g, Ev.n, Ev.out) /\ Ev.unit
    \/ IsEvent("fill")  /\ Fill(Ev.g, Ev.v)
    \/ IsEvent("word")  /\ SetWord(Ev.g, Ev.i, Ev.v)
    \/ IsEvent("index") /\ SetIndex(Ev.g, Ev.n)
    \/ IsEvent("copy")  /\ Copy(Ev.g, Ev.h)
    \/ IsEvent("none")  /\ rnd[Ev.g] = None /\ UNCHANGED rnd
TraceSpec == TraceInit /\ [][TraceNext]_<<rnd, l>>
==============================================================================
