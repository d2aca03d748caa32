------------------------------- MODULE SeqOps --------------------------------
(* Sequence vocabulary shared by the component specifications.  Positions in *)
(* the library's API count from 0, so the operators below do, too.           *)
EXTENDS Naturals, Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
AbsDiff(a, b) == IF a > b THEN a - b ELSE b - a

\* the item at (0-based) position i
At(s, i) == s[i + 1]
\* numbers in traces are clamped to +-10^9 (negative: the upper half of size_t)
Huge(n) == n < 0 \/ n >= 1000000000
InRange(s, i) == ~Huge(i) /\ i < Len(s)

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

\* remove (at most) n items from position i on
RemoveRange(s, i, n) ==
    IF Huge(n) \/ n >= Len(s) - i THEN Take(s, i)
    ELSE SubSeq(s, 1, i) \o SubSeq(s, i + n + 1, Len(s))
RemoveIdx(s, i) == RemoveRange(s, i, 1)
InsertIdx(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))

Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Repeat(v, n) == [k \in 1..n |-> v]

\* positions (1-based, ascending) satisfying P are summarised by the following
FirstIdx(s, P(_)) ==               \* 0-based index of the first item with P, or -1
    IF \E k \in 1..Len(s) : P(s[k])
    THEN (CHOOSE k \in 1..Len(s) : P(s[k]) /\ \A j \in 1..(k-1) : ~P(s[j])) - 1
    ELSE -1
IndexOfFrom(s, v, i) ==            \* first index >= i holding v, or -1
    IF Huge(i) THEN -1
    ELSE IF \E k \in (i+1)..Len(s) : s[k] = v
         THEN (CHOOSE k \in (i+1)..Len(s) : s[k] = v /\ \A j \in (i+1)..(k-1) : s[j] # v) - 1
         ELSE -1
CountOf(s, v) == Len(SelectSeq(s, LAMBDA c : c = v))

Unchanged(x, y) == x = y
==============================================================================
