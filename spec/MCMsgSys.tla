------------------------------ MODULE MCMsgSys -------------------------------
EXTENDS MsgSys, MCBase
CONSTANTS MaxCount
vars == <<sy, op>>
MCInit == SysInit /\ op = <<"reset">>
Do(w) == op' = w
Files == {<<>>, <<97, 46, 99>>}
Texts == {<<>>, <<104, 105>>, <<37, 100, 10>>}
MCNext == \E s \in Streams, c \in Counters \union {0}, f \in Files, ln \in {-1, 0, 12}, co \in {-1, 7}, ty \in {<<101>>}, cl \in {<<>>, <<27, 91, 51, 49, 109>>}, t \in Texts :
            /\ IF c = 0 THEN TRUE ELSE sy.cnt[c] < MaxCount
            /\ sy' = [out |-> sy.out, cnt |-> IF c = 0 THEN sy.cnt ELSE Tally(c)]
            /\ Do(<<"msg", s, c, f, ln, co, ty, cl, t, 0>>)
MCSpec == MCInit /\ [][MCNext]_vars
View == sy.cnt
Emit == Edge(sy.cnt, sy.cnt')
\* one line end per message unless its text has more; every part appears in order
ASSUME \A f \in Files, t \in Texts : LET m == Message(IF f = <<>> THEN <<>> ELSE <<f>>, <<>>, <<>>, <<101>>, <<>>, t)
    IN  /\ m[Len(m)] = 10 /\ CountOf(m, 10) = 1 + CountOf(t, 10)
        /\ FindFrom(m, <<42, 42, 42, 42, 32>> \o t \o <<32, 42, 42, 42, 42, 10>>, 0) >= 0
ASSUME Message(<< <<97>> >>, << <<49>> >>, << <<50>> >>, <<101>>, <<>>, <<120>>) = <<40, 97, 58, 49, 58, 50, 41, 32, 101, 27, 91, 48, 109, 58, 32, 42, 42, 42, 42, 32, 120, 32, 42, 42, 42, 42, 10>>
==============================================================================
