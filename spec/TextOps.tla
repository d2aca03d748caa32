------------------------------- MODULE TextOps -------------------------------
(* Texts are sequences of bytes 1..255.                                      *)
EXTENDS SeqOps
SX == INSTANCE SequencesExt
Ch(c) == c                                  \* readability only
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
MapS(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
SomeC(s, F(_)) == \E i \in 1..Len(s) : F(s[i])
\* does n occur in s at 0-based position i
OccursAt(s, n, i) == i + Len(n) <= Len(s) /\ SubSeq(s, i + 1, i + Len(n)) = n
StartsWith(s, n) == OccursAt(s, n, 0)
\* 0-based positions of all occurrences (overlapping ones included) in order; n non-empty
Occurrences(s, n) == SelectSeq([i \in 1..Len(s) |-> i - 1], LAMBDA i : OccursAt(s, n, i))
\* 0-based position of the first occurrence at or after i, or -1 (n non-empty)
FindFrom(s, n, i) ==
    IF \E k \in i..(Len(s) - Len(n)) : OccursAt(s, n, k)
    THEN CHOOSE k \in i..(Len(s) - Len(n)) : OccursAt(s, n, k) /\ \A j \in i..(k - 1) : ~OccursAt(s, n, j)
    ELSE -1
\* occurrences counted from the left without overlap
Disjoint(s, n) == SX!FoldLeft(LAMBDA acc, p : IF acc = <<>> \/ p >= acc[Len(acc)] + Len(n) THEN Append(acc, p) ELSE acc, <<>>, Occurrences(s, n))
Count(s, n) == IF n = <<>> THEN 0 ELSE Len(Disjoint(s, n))
\* replace the first k occurrences (all of them if k is enormous)
Replace(s, n, w, k) ==
    IF n = <<>> THEN s
    ELSE LET ps == Disjoint(s, n)
             st == SX!FoldLeft(LAMBDA acc, p : [from |-> p + Len(n), out |-> acc.out \o SubSeq(s, acc.from + 1, p) \o w],
                               [from |-> 0, out |-> <<>>], IF Huge(k) THEN ps ELSE Take(ps, k))
         IN  st.out \o SubSeq(s, st.from + 1, Len(s))
Keep(s, S) == SelectSeq(s, LAMBDA c : c \in S)
Spaces == {32} \union 9..13
\* -1, 0, 1: order of two texts
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Order(a, b) == LET m == Min2(Len(a), Len(b))
               IN  IF \A i \in 1..m : a[i] = b[i] THEN Sign(Len(a) - Len(b))
                   ELSE LET k == CHOOSE i \in 1..m : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j] IN Sign(a[k] - b[k])
\* decimal digits
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
RECURSIVE DigitsValue(_, _)
DigitsValue(s, acc) == IF s = <<>> \/ ~IsDigit(Head(s)) THEN acc ELSE DigitsValue(Tail(s), acc * 10 + Head(s) - 48)
RECURSIVE SkipSpaces(_)
SkipSpaces(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN SkipSpaces(Tail(s)) ELSE s
==============================================================================
