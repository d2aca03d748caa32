---------------------------- MODULE MsgSpanTrace -----------------------------
EXTENDS MsgSpan, TraceBase
TraceInit == SpanInit /\ l = 1
TraceNext ==
    /\ \/ IsEvent("reset") /\ ms' = NoSrc
       \/ IsEvent("from")  /\ From
       \/ IsEvent("none")  /\ UNCHANGED ms
       \/ IsEvent("text")  /\ FromText(Ev.t, Ev.keep, Ev.r)
       \/ IsEvent("file")  /\ FromFile(Ev.name, Ev.exists, Ev.t, Ev.keep, Ev.r)
       \/ IsEvent("clear") /\ Clear
       \/ IsEvent("line")  /\ Line(Ev.i, Ev.null, Ev.t)
       \/ IsEvent("label") /\ AddLabel(Ev.span[1], Ev.span[2], Ev.span[3], Ev.span[4], Ev.symcolor, Ev.sym, Ev.color, Ev.t, Ev.r)
       \/ IsEvent("note")  /\ AddNote(Ev.color, Ev.t, Ev.r)
       \/ IsEvent("emit")  /\ Emit_(Ev.counted, Ev.file, Ev.type, Ev.num, Ev.color, Ev.line, Ev.col, Ev.t, Ev.out)
       \/ IsEvent("merge") /\ Merge(Ev.a, Ev.b, Ev.c)
    /\ Ev.lines = ms'.lines /\ Ev.code = ms'.code /\ Ev.fname = ms'.file
    /\ Ev.nlab = Len(ms'.labels) /\ Ev.nnote = Len(ms'.notes) /\ Ev.count = ms'.count
    /\ (Ev.op = "clear" => Ev.heap = 0)
TraceSpec == TraceInit /\ [][TraceNext]_<<ms, l>>
==============================================================================
