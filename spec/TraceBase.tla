------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: a recorded execution of the real *)
(* code is a sequence of events (one per public call: name, arguments,       *)
(* results, projected state) read from the file named by $TRACE.  A trace    *)
(* specification conjoins IsEvent(name) with the corresponding action of the *)
(* component's specification; the trace is accepted iff every line can be    *)
(* consumed (POSTCONDITION TraceAccepted).                                   *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

VARIABLE l                       \* position of the next event in the trace

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev    == Trace[l]
Has(f) == f \in DOMAIN Ev

IsEvent(e) == /\ l <= Len(Trace)
              /\ Ev.op = e
              /\ l' = l + 1

\* one state per consumed event plus the initial one; prints the first event that
\* no action of the specification explains
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
==============================================================================
