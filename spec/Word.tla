-------------------------------- MODULE Word ---------------------------------
(* Unsigned numbers as sequences of bytes, least significant first (TLC's    *)
(* integers have 32 bits).  A machine word has 8 bytes; products may be       *)
(* longer and are compared by value.                                         *)
EXTENDS Naturals, Integers, Sequences
Digit(w, k) == IF k <= Len(w) THEN w[k] ELSE 0
WMax(a, b) == IF a > b THEN a ELSE b
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF Digit(a, k) < Digit(b, k) THEN -1 ELSE IF Digit(a, k) > Digit(b, k) THEN 1 ELSE CmpFrom(a, b, k - 1)
Cmp(a, b) == CmpFrom(a, b, WMax(Len(a), Len(b)))
Leq(a, b) == Cmp(a, b) <= 0
Less(a, b) == Cmp(a, b) < 0
Same(a, b) == Cmp(a, b) = 0
IsZero(w) == \A k \in 1..Len(w) : w[k] = 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, c) == IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == Digit(a, k) + Digit(b, k) + c IN <<s % 256>> \o AddFrom(a, b, k + 1, s \div 256)
Add(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == Digit(a, k) - Digit(b, k) - c IN <<(s + 256) % 256>> \o SubFrom(a, b, k + 1, IF s < 0 THEN 1 ELSE 0)
Sub(a, b) == SubFrom(a, b, 1, 0)                 \* modulo 2^(8 * Len(a))
\* schoolbook product: column sums stay below 2^20
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, col, i) == IF i > Len(a) THEN 0 ELSE (IF col + 1 - i \in 1..Len(b) THEN a[i] * b[col + 1 - i] ELSE 0) + ColSum(a, b, col, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, col, c) == IF col > Len(a) + Len(b) THEN <<>>
                         ELSE LET s == ColSum(a, b, col, 1) + c IN <<s % 256>> \o MulFrom(a, b, col + 1, s \div 256)
RECURSIVE Trim(_)
Trim(w) == IF w # <<>> /\ w[Len(w)] = 0 THEN Trim(SubSeq(w, 1, Len(w) - 1)) ELSE w
Mul(a, b) == Trim(MulFrom(Trim(a), Trim(b), 1, 0))
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o OfNat(n \div 256)
Trunc(w, n) == [k \in 1..n |-> Digit(w, k)]      \* modulo 2^(8n)
AllOnes == [k \in 1..8 |-> 255]
Fits(w) == \A k \in 9..Len(w) : w[k] = 0
\* the largest k with base^k <= x (x # 0, base >= 2)
RECURSIVE LogFrom(_, _, _, _)
LogFrom(x, base, p, k) == LET q == Mul(p, base) IN IF Leq(q, x) THEN LogFrom(x, base, q, k + 1) ELSE k
Log(x, base) == LogFrom(x, base, <<1>>, 0)
RECURSIVE Pow(_, _)
Pow(base, k) == IF k = 0 THEN <<1>> ELSE Mul(Pow(base, k - 1), base)
\* the set bits
Bit(w, i) == (Digit(w, (i \div 8) + 1) \div (2 ^ (i % 8))) % 2
RECURSIVE ByteOnes(_)
ByteOnes(b) == IF b = 0 THEN 0 ELSE 2 * ByteOnes(b \div 2) + 1     \* smallest 2^n - 1 covering b
\* all bits up to the highest set one
FillOnes(w) == LET t == Trim(w) IN [k \in 1..Len(w) |-> IF k < Len(t) THEN 255 ELSE IF k = Len(t) THEN ByteOnes(t[k]) ELSE 0]
Negative(w) == Digit(w, 8) >= 128
Magnitude(w) == IF Negative(w) THEN Sub(Trunc(<<>>, 8), w) ELSE w
\* order of signed words
SLeq(a, b) == IF Negative(a) # Negative(b) THEN Negative(a) ELSE Leq(a, b)
\* remainder modulo a power of two (given as a word)
RECURSIVE ModPow2(_, _)
ModPow2(w, p) == LET t == Trim(p) n == Len(t) IN [k \in 1..n |-> IF k < n THEN Digit(w, k) ELSE Digit(w, k) % t[n]]
PowerOfTwo(w) == LET t == Trim(w) IN t # <<>> /\ t[Len(t)] \in {1, 2, 4, 8, 16, 32, 64, 128} /\ \A k \in 1..(Len(t) - 1) : t[k] = 0
==============================================================================
