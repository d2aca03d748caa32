----------------------------- MODULE MCMsgSpan -------------------------------
EXTENDS MsgSpan, MCBase
CONSTANTS MaxLabels, MaxLen
vars == <<ms, op>>
Do(w) == op' = w
RECURSIVE TextsOf(_)
TextsOf(n) == IF n = 0 THEN {<<>>} ELSE TextsOf(n - 1) \union {Append(t, c) : t \in {x \in TextsOf(n - 1) : Len(x) = n - 1}, c \in {97, 9, 10, 13}}
Some == {<<97>>, <<97, 10>>, <<10, 97>>, <<97, 10, 10, 98, 9, 99>>}
B(b) == IF b THEN 1 ELSE 0
MCInit == SpanInit /\ op = <<"reset">>
MCNext ==
    \/ /\ ~Exists
       /\ \/ \E t \in Some, k \in BOOLEAN : FromText(t, k, TRUE) /\ Do(<<"text", B(k), t>>)
          \/ \E t \in Some : FromFile(<<115, 46, 116>>, TRUE, t, TRUE, TRUE) /\ Do(<<"file", 1, t>>)
          \/ FromFile(<<115, 46, 116>>, FALSE, <<>>, TRUE, FALSE) /\ Do(<<"file", 1, "none">>)
          \/ \E t \in TextsOf(MaxLen), k \in {"text", "file"} : UNCHANGED ms /\ Do(<<"try", k, t>>)
          \/ \E a, b \in {0, 1, 2}, c, d \in {0, 1} : UNCHANGED ms /\ Do(<<"merge", a, b, c, d, 1, 1, 1, 0>>)
    \/ /\ Exists
       /\ \/ Clear /\ Do(<<"clear">>)
          \/ \E i \in 0..Len(ms.lines) \union {-1} : UNCHANGED ms /\ Do(<<"line", i>>)
          \/ \E l0, l1 \in {1, Len(ms.lines)}, c0 \in 0..1, w \in 0..2 : l0 <= l1 /\ Len(ms.labels) < MaxLabels /\ AddLabel(l0, l1, c0, c0 + w, <<>>, 94, <<>>, <<109>>, TRUE)
                /\ Do(<<"label", l0, l1, c0, c0 + w, "null", 94, "null", <<109>> >>)
          \/ Len(ms.notes) < 1 /\ AddNote(<< <<99>> >>, <<110>>, TRUE) /\ Do(<<"note", <<99>>, <<110>> >>)
          \/ \E c \in BOOLEAN : Do(<<"emit", B(c), "null", <<101>>, "null", <<>>, -1, -1, <<109>> >>)
                /\ ms' = [ms EXCEPT !.labels = <<>>, !.notes = IF ms.labels = <<>> THEN @ ELSE <<>>]
          \/ Do(<<"emit", 1, <<102>>, <<101>>, <<69, 49>>, <<27>>, 3, 4, <<37>> >>)
                /\ ms' = [ms EXCEPT !.labels = <<>>, !.notes = IF ms.labels = <<>> THEN @ ELSE <<>>]
MCSpec == MCInit /\ [][MCNext]_vars
View == [ms EXCEPT !.count = 0]
Emit == Edge([ms EXCEPT !.count = 0], [ms' EXCEPT !.count = 0])
\* --- laws
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o Join(Tail(ls))
ASSUME \A t \in TextsOf(MaxLen) : LET c == FixNewlines(t, TRUE) IN Join(LinesOf(c)) = c /\ \A k \in 1..Len(LinesOf(c)) : \A j \in 1..Len(LinesOf(c)[k]) : LinesOf(c)[k][j] # 10
\* every labelled line appears in the rendering with its number
Shown == \A k \in 1..Len(ms.labels), n \in 1..Len(ms.lines) :
    (ms.labels[k].l0 <= n /\ n <= ms.labels[k].l1) => FindFrom(Body, <<124>> \o ms.lines[n] \o <<10>>, 0) >= 0
==============================================================================
