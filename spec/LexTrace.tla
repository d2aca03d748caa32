------------------------------ MODULE LexTrace -------------------------------
EXTENDS Lex, TraceBase
TraceInit == LexInit /\ l = 1
T == IF Ev.fresh THEN Ev.t ELSE lex.text
I == IF Ev.fresh THEN 0 ELSE lex.pos
N == IF Ev.fresh THEN 0 ELSE lex.line
B == Ev.b
E == Ev.e
\* the operation moves no line break
Quiet == Ev.n = N
Opened == /\ Ev.nul
TraceNext ==
    /\ \/ IsEvent("reset")   /\ lex' = [text |-> <<>>, pos |-> 0, line |-> 0]
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("cursor")  /\ SetCursor(Ev.e)
       \/ IsEvent("num")     /\ Number(Ev.k, T, I, N, ErrName(Ev.r), E, B, Ev.f) /\ Opened /\ Quiet /\ Ev.msg
       \/ IsEvent("ident")   /\ Ident(T, I, N, Ev.r, E, B) /\ Opened /\ Quiet
       \/ IsEvent("skip")    /\ SkipWhile(Ev.k, T, I, N, E, Ev.n) /\ Opened
       \/ IsEvent("skipline") /\ SkipLine(Ev.k, T, I, N, E) /\ Opened /\ Quiet
       \/ IsEvent("while")   /\ LexWhile(Ev.k, T, I, N, Ev.r, E, B) /\ Opened /\ Quiet
       \/ IsEvent("until")   /\ LexTo(Ev.c, T, I, N, Ev.r, E, B) /\ Opened /\ Quiet
       \/ IsEvent("whilerunes") /\ LexRunes(Ev.k, T, I, N, Ev.r, E, B) /\ Opened /\ Quiet
       \/ IsEvent("skipquote") /\ SkipQuoted(Ev.c, T, I, N, E) /\ Opened /\ Quiet
       \/ IsEvent("cskip")   /\ SkipComment(T, I, N, E, Ev.n) /\ Opened
       \/ IsEvent("clex")    /\ LexComment(T, I, N, Ev.r, E, B, Ev.n) /\ Opened
       \/ IsEvent("cclear")  /\ ClearComment(T, I, N, E, Ev.t2) /\ Opened /\ Quiet
       \/ IsEvent("bskip")   /\ SkipBlock(Ev.k, T, I, N, E, Ev.n) /\ Opened
       \/ IsEvent("blex")    /\ LexBlock(Ev.k, T, I, N, Ev.r, E, B, Ev.n) /\ Opened
       \/ IsEvent("bclear")  /\ ClearBlock(Ev.k, T, I, N, E, Ev.t2) /\ Opened /\ Quiet
       \/ IsEvent("mskip")   /\ SkipMulti(Ev.k, Ev.c, T, I, N, E) /\ Opened /\ Quiet
       \/ IsEvent("mlex")    /\ LexMulti(Ev.k, T, I, N, Ev.r, E, B, Ev.n) /\ Opened
       \/ IsEvent("fixnl")   /\ NewlinesFixed(Ev.tabs, Ev.t, Ev.b)
       \/ IsEvent("str")     /\ Quoted(Ev.k, T, I, N, ErrName(Ev.r), E, B) /\ Opened /\ Quiet
       \/ IsEvent("esc")     /\ EscDigits(Ev.k, T, I, N, Ev.r, E) /\ Opened /\ Quiet
       \/ IsEvent("enc")     /\ EncodeRune(Ev.v, Ev.len, Ev.b, Ev.b2, Ev.ok)
       \/ IsEvent("encin")   /\ EncodeInto(Ev.v, Ev.room, Ev.k, Ev.b)
       \/ IsEvent("encrange") /\ EncodeRange(Ev.lo, Ev.hi, Ev.b) /\ Ev.back = Ev.hi - Ev.lo + 1
       \/ IsEvent("dec")     /\ DecodeAt(T, I, N, Ev.avail, Ev.m, Ev.v, Ev.v2)
       \/ IsEvent("next")    /\ NextRune(T, I, N, Ev.v, E)
       \/ IsEvent("runes")   /\ Runes(Ev.t, Ev.rs, Ev.len, Ev.back, Ev.count) /\ Ev.zero
       \/ IsEvent("classify") /\ Classify(Ev.c, Ev.r) /\ LeadLength(Ev.c, Ev.lead)
       \/ IsEvent("runeclass") /\ RuneClasses(Ev.lo, Ev.hi, Ev.r)
       \/ IsEvent("checkis") /\ CheckIs(Ev.t, Ev.i, Ev.c, Ev.len, Ev.r) /\ Ev.r = Ev.r2
       \/ IsEvent("findrune") /\ FindRune(Ev.t, Ev.c, Ev.r) /\ Ev.has = (Ev.r >= 0)
       \/ IsEvent("toint")   /\ ToInt(Ev.go, Ev.t, Ev.i, Ev.ie, Ev.u, Ev.ue) /\ Ev.same
       \/ IsEvent("tobase")  /\ ToBase(Ev.t, Ev.base, Ev.num, Ev.ir, Ev.i, Ev.ur, Ev.u)
       \/ IsEvent("tofloat") /\ ToFloat(Ev.t, Ev.x1000, Ev.x16)
    /\ Ev.heap = 0
TraceSpec == TraceInit /\ [][TraceNext]_<<lex, l>>
==============================================================================
