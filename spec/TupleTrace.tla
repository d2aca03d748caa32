------------------------------ MODULE TupleTrace -----------------------------
EXTENDS Tuple, TraceBase
\* the exact layout for scalar fields (and for every packed tuple), the general rules otherwise.
\* a zero-sized field has no place of its own (its offset is not compared)
Exact == packed' \/ AllScalar(sizes')
OffOK == LET o == Offsets(sizes', packed') IN
    /\ Len(Ev.offs) = Len(sizes')
    /\ \A i \in 1..Len(sizes') : sizes'[i] # 0 =>
         /\ Ev.offs[i] >= 0 /\ Ev.offs[i] + sizes'[i] <= Ev.len
         /\ (Exact => Ev.offs[i] = o[i])
         /\ \A j \in i + 1..Len(sizes') : sizes'[j] # 0 => Ev.offs[i] + sizes'[i] <= Ev.offs[j]
         /\ (~packed' /\ Scalar(sizes'[i])) => Ev.offs[i] % Align(sizes'[i]) = 0
Obs == /\ Ev.exists = exists'
       /\ (exists' =>
            /\ Ev.n = Len(sizes') /\ Ev.packed = packed'
            /\ Ev.sizes = sizes'
            /\ OffOK
            /\ (Exact => Ev.len = Total(sizes', packed'))
            /\ Ev.copy                       \* conversion to a struct copies the whole block
            /\ ~Ev.past                      \* no field at or beyond the end
            /\ Ev.fields = flds'
            /\ ((Exact /\ Ev.len <= 5000) => Ev.mem = Block(sizes', packed', flds')))
       /\ (~exists' => Ev.heap = 0)
Reason == (~Ev.r => Ev.oom) /\ (Ev.oom => ~Ev.r)
TraceInit == TupleInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ Release
       \/ IsEvent("none") /\ Same
       \/ IsEvent("new") /\ New(Ev.ss, Ev.pk, Ev.r) /\ Reason
       \/ IsEvent("release") /\ Release
       \/ IsEvent("huge") /\ ~exists /\ Same /\ (Ev.r => Ev.fits)    \* an enormous tuple is made whole or refused
       \/ IsEvent("cleared") /\ Release /\ Ev.n = 0 /\ ~Ev.past
       \/ IsEvent("set") /\ Set(Ev.i, Ev.v, Ev.r)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
==============================================================================
