------------------------------- MODULE LexConv -------------------------------
(* Integer values of lexed numbers, as four 16-bit limbs (least significant  *)
(* first); overflow beyond 64 bits is marked by the fifth component.         *)
EXTENDS LexBase
Zero5 == <<0, 0, 0, 0, 0>>
MulAdd(v, m, a) ==
    LET x0 == v[1] * m + a
        x1 == v[2] * m + (x0 \div 65536)
        x2 == v[3] * m + (x1 \div 65536)
        x3 == v[4] * m + (x2 \div 65536)
    IN  <<x0 % 65536, x1 % 65536, x2 % 65536, x3 % 65536, IF v[5] # 0 \/ x3 >= 65536 THEN 1 ELSE 0>>
U64(v) == SubSeq(v, 1, 4)
Neg(v) ==   \* two's complement
    LET c(i) == 65535 - v[i]  x0 == c(1) + 1  x1 == c(2) + (x0 \div 65536)  x2 == c(3) + (x1 \div 65536)  x3 == c(4) + (x2 \div 65536)
    IN  <<x0 % 65536, x1 % 65536, x2 % 65536, x3 % 65536>>
FitsInt(v) == v[5] = 0 /\ v[4] < 32768
FitsUint(v) == v[5] = 0
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF IsLower(c) THEN c - 87 ELSE IF IsUpper(c) THEN c - 55 ELSE 99
RECURSIVE Eat(_, _, _, _)
Eat(s, i, base, v) == IF DigitVal(Chr(s, i)) >= base THEN [v |-> v, end |-> i] ELSE Eat(s, i + 1, base, MulAdd(v, base, DigitVal(Chr(s, i))))
\* [ok, v, end]: the integer literal at the start of s
IntLit(s, go) ==
    LET p == IF Chr(s, 0) # 48 THEN 0 ELSE Low(Chr(s, 1))
        base == IF p = 120 THEN 16 ELSE IF p = 98 THEN 2 ELSE IF p = 111 /\ go THEN 8 ELSE IF Chr(s, 0) = 48 THEN 8 ELSE 10
        start == IF p \in {120, 98} \/ (p = 111 /\ go) THEN 2 ELSE 0
        e == Eat(s, start, base, Zero5)
    IN  [ok |-> e.end > start /\ ~IsDigit(Chr(s, e.end)), v |-> e.v, end |-> e.end]
\* digits given by a table of numerals
IndexOf(t, c) == LET P == {k \in 1..Len(t) : t[k] = c} IN IF P = {} THEN -1 ELSE (CHOOSE k \in P : \A j \in P : k <= j) - 1
RECURSIVE Digits2(_, _, _, _)
Digits2(s, base, num, v) == IF s = <<>> THEN v ELSE Digits2(Tail(s), base, num, MulAdd(v, base, IndexOf(num, Head(s))))
==============================================================================
