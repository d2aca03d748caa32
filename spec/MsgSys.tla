------------------------------- MODULE MsgSys --------------------------------
(* Messages: each appends one line to its stream and counts once.            *)
(* Optional parts are sequences of zero or one element; numbers appear as     *)
(* their decimal text.                                                       *)
EXTENDS TextOps
CONSTANTS Streams, Counters
VARIABLE sy                      \* [out: [stream -> bytes written], cnt: [counter -> number]]
SysInit == sy = [out |-> [s \in Streams |-> 0], cnt |-> [c \in Counters |-> 0]]
TypeOK == \A s \in Streams : sy.out[s] \in Nat
Reset == <<27, 91, 48, 109>>
Stars == <<42, 42, 42, 42>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Opt(o, F(_)) == IF o = <<>> THEN <<>> ELSE F(o[1])
Place(file, line, col) ==
    Opt(file, LAMBDA f : <<40>> \o f \o Opt(line, LAMBDA x : <<58>> \o x) \o Opt(col, LAMBDA x : <<58>> \o x) \o <<41, 32>>)
Message(file, line, col, type, color, text) ==
    Place(file, line, col) \o color \o type \o Reset \o <<58, 32>> \o Stars \o <<32>> \o text \o <<32>> \o Stars \o <<10>>
Tally(c) == [sy.cnt EXCEPT ![c] = @ + 1]
\* a counter is taken over at whatever number it stands: only what is added counts
From(c) == sy' = [sy EXCEPT !.cnt[c] = 0]
Write(s, c, file, line, col, type, color, text, out) ==
    /\ out = Message(file, line, col, type, color, text)
    /\ sy' = [out |-> [sy.out EXCEPT ![s] = @ + Len(out)], cnt |-> IF c = 0 THEN sy.cnt ELSE Tally(c)]
==============================================================================
