------------------------------ MODULE MsgSpan --------------------------------
(* A source with pending labels and notes, and what a diagnostic renders.     *)
(* Texts are byte sequences; optional parts sequences of zero or one element. *)
EXTENDS LexText, Utf8
VARIABLE ms                      \* [file, code, lines, labels, notes, count]
NoSrc == [file |-> <<>>, code |-> <<>>, lines |-> <<>>, labels |-> <<>>, notes |-> <<>>, count |-> 0]
SpanInit == ms = NoSrc
Reset == <<27, 91, 48, 109>>
Spaces_(n) == Repeat(32, n)
\* the lines of a text: what its line breaks separate
LinesOf(s) == LET nl == <<0>> \o SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : s[k] = 10) \o <<Len(s) + 1>>
              IN  [j \in 1..(Len(nl) - 1) |-> SubSeq(s, nl[j] + 1, nl[j + 1] - 1)]
TypeOK == /\ \A k \in 1..Len(ms.labels) : ms.labels[k].c0 <= ms.labels[k].c1
          /\ (ms.code # <<>> => ms.lines = LinesOf(ms.code))
Exists == ms.lines # <<>>
\* tabs are four spaces wide, all line breaks are one newline
Load(file, t, keep) == LET c == FixNewlines(t, TRUE)
                       IN  [NoSrc EXCEPT !.file = file, !.code = IF keep THEN c ELSE <<>>, !.lines = LinesOf(c), !.count = ms.count]
FromText(t, keep, r) == ms = [NoSrc EXCEPT !.count = ms.count] /\ r /\ ms' = Load(<<>>, t, keep)
\* a missing file is refused; whether an empty one is a source is unspecified
FromFile(name, exists, t, keep, r) ==
    /\ ms = [NoSrc EXCEPT !.count = ms.count]
    /\ IF exists /\ t # <<>> THEN r ELSE IF ~exists THEN ~r ELSE TRUE
    /\ IF r THEN ms' = Load(name, t, keep) ELSE UNCHANGED ms
\* the counter is taken over at whatever number it stands: only what is added counts
From == ms' = [ms EXCEPT !.count = 0]
Clear == ms' = [NoSrc EXCEPT !.count = ms.count]
Line(i, null, t) == null = ~InRange(ms.lines, i) /\ (~null => t = At(ms.lines, i)) /\ UNCHANGED ms
Colored(color, t) == IF color = <<>> THEN t ELSE color[1] \o t \o Reset
\* a label spans lines l0..l1 (from 1) and columns c0..c1-1
AddLabel(l0, l1, c0, c1, symcolor, sym, color, t, r) ==
    /\ r
    /\ ms' = [ms EXCEPT !.labels = Append(@, [l0 |-> l0, l1 |-> l1, c0 |-> c0, c1 |-> c1, symcolor |-> symcolor, sym |-> sym, msg |-> Colored(color, t)])]
AddNote(color, t, r) == r /\ ms' = [ms EXCEPT !.notes = Append(@, Colored(color, t))]
Opt(o, F(_)) == IF o = <<>> THEN <<>> ELSE F(o[1])
RECURSIVE Flat(_, _, _)
Flat(F(_), i, j) == IF i > j THEN <<>> ELSE F(i) \o Flat(F, i + 1, j)
MaxLine == LET S == {ms.labels[k].l1 : k \in 1..Len(ms.labels)} IN CHOOSE m \in S : \A x \in S : x <= m
HeadOf(type, num, color, t, file, line, col) ==
    Opt(type, LAMBDA ty : color \o ty \o Opt(num, LAMBDA n : <<91>> \o n \o <<93>>) \o Reset \o <<58, 32>>)
    \o t \o Opt(file, LAMBDA f : <<10, 45, 45, 62, 32>> \o f \o Opt(line, LAMBDA x : <<58>> \o x) \o Opt(col, LAMBDA x : <<58>> \o x))
SrcLine(n, w) == Decimal(n) \o Spaces_(w - Len(Decimal(n))) \o <<124>> \o ms.lines[n] \o <<10>>
Marker(b, w) == Spaces_(w) \o <<124>> \o Spaces_(b.c0) \o Opt(b.symcolor, LAMBDA c : c) \o Flat(LAMBDA k : Encode(b.sym), 1, b.c1 - b.c0) \o Reset \o <<32>> \o b.msg \o <<10>>
Body == IF ms.labels = <<>> THEN <<>>
        ELSE LET w == Len(Decimal(MaxLine)) + 1
             IN  <<10>> \o Spaces_(w) \o <<124, 10>>
                 \o Flat(LAMBDA k : Flat(LAMBDA n : SrcLine(n, w), ms.labels[k].l0, ms.labels[k].l1) \o Marker(ms.labels[k], w), 1, Len(ms.labels))
                 \o (IF ms.notes = <<>> THEN <<>> ELSE Spaces_(w) \o <<124, 10>> \o Flat(LAMBDA k : Spaces_(w) \o ms.notes[k] \o <<10>>, 1, Len(ms.notes)))
\* notes wait for the next diagnostic that has labels
Emit_(counted, file, type, num, color, line, col, t, out) ==
    /\ out = HeadOf(type, num, color, t, file, line, col) \o Body
    /\ ms' = [ms EXCEPT !.count = IF counted THEN @ + 1 ELSE @, !.labels = <<>>, !.notes = IF ms.labels = <<>> THEN @ ELSE <<>>]
\* spans: <<line_start, line_end, colm_start, colm_end>>
Merge(a, b, c) == c = <<Min2(a[1], b[1]), Max2(a[2], b[2]), Min2(a[3], b[3]), Max2(a[4], b[4])>> /\ UNCHANGED ms
==============================================================================
