------------------------------- MODULE StrTrace ------------------------------
EXTENDS Str, TraceBase
Q(o) == IF o = 1 THEN 2 ELSE 1
\* the text, its reported length, and the terminator right after it
Obs == /\ \A o \in Objs : /\ Ev.st[o].exists = Exists(o)'
                          /\ Ev.st[o].s = S(o)'
                          /\ Ev.st[o].len = Len(Ev.st[o].s)
                          /\ Ev.st[o].end
       /\ ((~Exists(1) /\ ~Exists(2))' => Ev.heap = 0)
P == IF Ev.self THEN Ev.o ELSE Q(Ev.o)
\* a refusal needs a reason
Reason(b) == (~Ev.r => (Ev.oom \/ b)) /\ (Ev.oom => ~Ev.r)
NoText == {"nofile", "unreadable", "dir"}     \* no such file, a stream that cannot be read, a directory
TraceInit == StrInit /\ l = 1
\* an empty initial text may leave the string without one (and say so)
TNew == IF Exists(Ev.o) THEN Ev.r = FALSE /\ Same
        ELSE IF Ev.obj THEN New(Ev.o, IF Ev.r THEN Ev.v ELSE <<>>, TRUE) /\ (~Ev.r => (Ev.oom \/ Ev.v = <<>>))
        ELSE Ev.oom /\ Same
Formatted == CASE Ev.k = 0 -> Ev.v
               [] Ev.k = 1 -> Decimal(Ev.n)
               [] Ev.k = 2 -> <<91>> \o Ev.v \o <<58>> \o Decimal(Ev.n) \o <<93>>
               [] Ev.k = 3 -> <<37>> \o Ev.v \o Ev.v
               [] OTHER -> <<>>
Null(o) == Ev.st[o].null
TCmp(o, t, nul) == IF nul THEN Exists(o) /\ Same ELSE Compare(o, t, Ev.r)
TraceNext ==
    /\ \/ IsEvent("reset")   /\ ResetAll
       \/ IsEvent("none")    /\ Same
       \/ IsEvent("new")     /\ TNew
       \/ IsEvent("release") /\ Release(Ev.o)
       \/ IsEvent("clear")   /\ Clear(Ev.o)
       \/ IsEvent("add_char") /\ AddChar(Ev.o, Ev.c, Ev.r) /\ Reason(FALSE)
       \/ IsEvent("add_rep") /\ AddRep(Ev.o, Ev.c, Ev.n, Ev.r) /\ Reason(Huge(Ev.n))
       \/ IsEvent("add_cstr") /\ AddText(Ev.o, Ev.v, Ev.r) /\ Reason(Ev.v = <<>>)
       \/ IsEvent("add_str") /\ AddText(Ev.o, S(P), Ev.r) /\ Reason(S(P) = <<>>)
       \/ IsEvent("copy_cstr") /\ SetText(Ev.o, Ev.v, Ev.r) /\ Reason(Ev.v = <<>>)
       \/ IsEvent("copy_str") /\ SetText(Ev.o, S(P), Ev.r) /\ Reason(S(P) = <<>>)
       \/ IsEvent("format")  /\ Format(Ev.o, Ev.fresh, Formatted, Ev.n1) /\ (Ev.n1 < 0 <=> Ev.oom)
       \/ IsEvent("read")    /\ SetText(Ev.o, Ev.v, Ev.r) /\ Reason(Ev.v = <<>> \/ Ev.k \in NoText) /\ (Ev.k \in NoText => ~Ev.r)
       \/ IsEvent("rep_char") /\ ReplaceChar(Ev.o, Ev.a, Ev.b, Ev.r)
       \/ IsEvent("rep_cstr") /\ ReplaceText(Ev.o, Ev.v, Ev.w, Ev.n, Ev.r) /\ Reason(Ev.n = 0 \/ Count(S(Ev.o), Ev.v) = 0)
       \/ IsEvent("rep_range") /\ ReplaceRange(Ev.o, Ev.lo, Ev.hi, Ev.w, Ev.r) /\ Reason(~RangeOk(Ev.o, Ev.lo, Ev.hi))
       \/ IsEvent("upper")   /\ Upper(Ev.o, Ev.r)
       \/ IsEvent("lower")   /\ Lower(Ev.o, Ev.r)
       \/ IsEvent("reverse") /\ Rev(Ev.o, Ev.r)
       \/ IsEvent("rm_char") /\ RmChar(Ev.o, Ev.c, Ev.r)
       \/ IsEvent("trim")    /\ Trim(Ev.o, Ev.r)
       \/ IsEvent("count_char") /\ CountChar(Ev.o, Ev.c, Ev.r)
       \/ IsEvent("count_cstr") /\ CountText(Ev.o, Ev.v, Ev.r)
       \/ IsEvent("find_char") /\ FindChar(Ev.o, Ev.c, Ev.r)
       \/ IsEvent("offsets") /\ Offsets(Ev.o, Ev.v, Ev.n, Ev.at, Ev.r)
       \/ IsEvent("empty")   /\ Empty(Ev.o, Ev.r)
       \/ IsEvent("palindrome") /\ Palindrome(Ev.o, Ev.r)
       \/ IsEvent("cmp_str") /\ TCmp(Ev.o, S(P), Null(Ev.o) \/ Null(P))
       \/ IsEvent("cmp_cstr") /\ TCmp(Ev.o, Ev.v, Null(Ev.o))
       \/ IsEvent("scan_chars") /\ ScanChars(Ev.o, Ev.r, Ev.v)
       \/ IsEvent("scan_int") /\ ScanInt(Ev.o, Ev.r, Ev.x)
    /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<str, l>>
==============================================================================
