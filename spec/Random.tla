------------------------------- MODULE Random --------------------------------
(* MT19937: 32-bit words, state of N words, shift M.  Words are pairs of      *)
(* 16-bit halves <<low, high>>.                                              *)
EXTENDS Naturals, Integers, Sequences, Bitwise, TLC
CONSTANTS Gens
VARIABLE rnd                     \* [g -> [mt, idx]]
N == 624
M == 397
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
\* shifts by k < 16
Shr(a, k) == <<(a[1] \div (2 ^ k)) + ((a[2] % (2 ^ k)) * (2 ^ (16 - k))), a[2] \div (2 ^ k)>>
Shl(a, k) == <<(a[1] * (2 ^ k)) % 65536, ((a[2] * (2 ^ k)) % 65536) + (a[1] \div (2 ^ (16 - k)))>>
Shr18(a) == <<a[2] \div 4, 0>>
MatrixA == <<45279, 39176>>                     \* 0x9908b0df
MaskB   == <<22144, 40236>>                     \* 0x9d2c5680
MaskC   == <<0, 61382>>                         \* 0xefc60000
\* the recurrence: upper bit of u, the rest of v
Twist(u, v) == LET y == <<v[1], (u[2] & 32768) + (v[2] & 32767)>>
               IN  IF y[1] % 2 = 1 THEN Xor2(Shr(y, 1), MatrixA) ELSE Shr(y, 1)
\* x[k+n] = x[k+m] xor Twist(x[k], x[k+1])
Next0(s, n, m, k) == Xor2(s[k + m], Twist(s[k], s[k + 1]))
\* all n words of the next block, one after the other
RECURSIVE Extend(_, _, _, _)
Extend(s, n, m, j) == IF j = 0 THEN s ELSE Extend(TLCEval(Append(s, Next0(s, n, m, Len(s) + 1 - n))), n, m, j - 1)
Block(s, n, m) == LET t == TLCEval(Extend(s, n, m, n)) IN SubSeq(t, n + 1, 2 * n)
\* the same block computed part by part, as many new words at a time as do not depend on each other
BlockFast(s) ==
    LET a == TLCEval([k \in 1..(N - M) |-> Xor2(s[k + M], Twist(s[k], s[k + 1]))])
        b == TLCEval([k \in 1..(N - M) |-> Xor2(a[k], Twist(s[k + N - M], s[k + N - M + 1]))])
        c == TLCEval([k \in 1..(N - 2 * (N - M) - 1) |-> Xor2(b[k], Twist(s[k + 2 * (N - M)], s[k + 2 * (N - M) + 1]))])
        d == a \o b \o c
    IN  Append(d, Xor2(d[M], Twist(s[N], d[1])))
Temper(y) ==
    LET a == Xor2(y, Shr(y, 11))
        b == Xor2(a, And2(Shl(a, 7), MaskB))
        c == Xor2(b, And2(Shl(b, 15), MaskC))
    IN  Xor2(c, Shr18(c))
\* seeding: x[0] = seed, x[k] = 6069 * x[k-1]  (mod 2^32)
Times6069(a) == LET lo == a[1] * 6069 IN <<lo % 65536, (a[2] * 6069 + (lo \div 65536)) % 65536>>
RECURSIVE SeedFrom(_, _)
SeedFrom(s, n) == IF Len(s) = n THEN s ELSE SeedFrom(TLCEval(Append(s, Times6069(s[Len(s)]))), n)
None == [mt |-> <<>>, idx |-> 0]
RndInit == rnd = [g \in Gens |-> None]
TypeOK == \A g \in Gens : rnd[g] = None \/ (Len(rnd[g].mt) = N /\ rnd[g].idx \in 0..(N + 1))
Seed(g, v) == rnd' = [rnd EXCEPT ![g] = [mt |-> SeedFrom(<<v>>, N), idx |-> N]]
\* drawing n numbers
RECURSIVE DrawFrom(_, _, _)
DrawFrom(st, n, out) ==
    IF n = 0 THEN [st |-> st, out |-> out]
    ELSE LET s == IF st.idx > N THEN TLCEval([mt |-> BlockFast(SeedFrom(<< <<4357, 0>> >>, N)), idx |-> 0])   \* never seeded
                  ELSE IF st.idx >= N THEN TLCEval([mt |-> BlockFast(st.mt), idx |-> 0]) ELSE st
             k == IF n < N - s.idx THEN n ELSE N - s.idx
             o == TLCEval([j \in 1..k |-> Temper(s.mt[s.idx + j])])
         IN  DrawFrom([s EXCEPT !.idx = s.idx + k], n - k, out \o o)
Draw(g, n, out) ==
    LET d == DrawFrom(rnd[g], n, <<>>)
    IN  /\ rnd[g] # None
        /\ out = d.out
        /\ rnd' = [rnd EXCEPT ![g] = d.st]
\* the caller may store any state: all words the same, one word, or where the generator stands
Fill(g, v) == rnd' = [rnd EXCEPT ![g] = [mt |-> TLCEval([k \in 1..N |-> v]), idx |-> N]]
SetWord(g, i, v) == rnd[g] # None /\ rnd' = [rnd EXCEPT ![g].mt = [@ EXCEPT ![i + 1] = v]]
SetIndex(g, n) == rnd[g] # None /\ rnd' = [rnd EXCEPT ![g].idx = IF n > N THEN N + 1 ELSE n]
\* copying a generator: both go on with the same numbers
Copy(g, h) == rnd[h] # None /\ rnd' = [rnd EXCEPT ![g] = rnd[h]]
==============================================================================
