------------------------------ MODULE IntHelp --------------------------------
(* The integer helpers of harbol_common_includes.h: functions of their        *)
(* arguments, except that the generated logarithm tables are state (the base  *)
(* they were generated for).                                                 *)
EXTENDS Word
LOCAL SX == INSTANCE SequencesExt
VARIABLE ih                      \* [base]: the word the tables were made for, <<>> if there are none
IntInit == ih = [base |-> <<>>]
TypeOK == ih.base = <<>> \/ (Len(ih.base) = 8 /\ Leq(<<3>>, ih.base))
Ten == <<10>>
LogOrZero(x, base) == IF IsZero(x) THEN 0 ELSE Log(x, base)
\* log2, digits and characters (with the terminator; signed: a sign as well)
WordFacts(x, lg2, lg10, d2, c2, d10, c10, c10i, ceil, next) ==
    LET n == LogOrZero(x, <<2>>)  m == LogOrZero(x, Ten)
    IN  /\ lg2 = n /\ lg10 = m
        /\ IF IsZero(x) THEN d2 \in {0, 1} ELSE d2 = n + 1            \* how many binary digits zero has is unspecified
        /\ c2 = d2 + 1
        /\ d10 = m + 1 /\ c10 = m + 2
        /\ c10i = LogOrZero(Magnitude(x), Ten) + 3
        /\ ceil = FillOnes(x)
        /\ (Fits(Add(FillOnes(x), <<1>>)) => Same(next, Add(FillOnes(x), <<1>>)))
        /\ UNCHANGED ih
\* alignments are powers of two (0 means none); results that need more than a word are unspecified
Align(x, a, al, pd) ==
    /\ IF IsZero(a) THEN al = x
       ELSE LET r == ModPow2(x, a)
                pad == IF IsZero(r) THEN <<0>> ELSE Sub(Trunc(a, 8), r)
            IN  /\ Same(pd, pad)
                /\ (Fits(Add(x, pad)) => Same(al, Add(x, pad)))
    /\ UNCHANGED ih
\* is v in lo..hi (lo <= hi)
Bounds(v, hi, lo, u, p, s) ==
    /\ (Leq(lo, hi) => u = (Leq(lo, v) /\ Leq(v, hi)) /\ p = u)
    /\ (SLeq(lo, hi) => s = (SLeq(lo, v) /\ SLeq(v, hi)))
    /\ UNCHANGED ih
Mask(n, m) == m = [k \in 1..8 |-> IF k <= n THEN 255 ELSE 0] /\ UNCHANGED ih
PtrAligned(x, a, r) == r = IsZero(ModPow2(x, a)) /\ UNCHANGED ih
\* tables for a base >= 3; num counts the powers a word can hold
RECURSIVE PowersFrom(_, _, _)
PowersFrom(base, p, k) == IF Fits(p) THEN <<Trunc(p, 8)>> \o PowersFrom(base, Mul(p, base), k + 1) ELSE <<>>
Powers(base) == PowersFrom(base, <<1>>, 0)
MakeTables(base, num, powers) ==
    IF Less(base, <<3>>) THEN num = 0 /\ UNCHANGED ih
    ELSE /\ powers = Powers(base) /\ num = Len(powers)
         /\ ih' = [ih EXCEPT !.base = base]
NoTables(num) == num = 0 /\ UNCHANGED ih           \* out of memory
LogN(x, lg, d, c, ci) ==
    /\ ih.base # <<>>
    /\ lg = LogOrZero(x, ih.base) /\ d = lg + 1 /\ c = lg + 2
    /\ ci = LogOrZero(Magnitude(x), ih.base) + 3
    /\ UNCHANGED ih
\* the documented SDBM recurrence h := byte + h * 65599 over the bytes, from the seed
SdbmStep(h, c) == Trunc(Add(Mul(h, <<63, 0, 1>>), <<c>>), 8)
Sdbm(bytes, seed) == SX!FoldLeft(SdbmStep, seed, bytes)
\* text, bytes, a word, and the word's bytes as a floating value; text of 7-bit characters only (char may be signed)
Hashes(d, v, seed, h, same) ==
    /\ ((\A k \in 1..Len(d) : d[k] < 128) => h[1] = Sdbm(d, seed))
    /\ h[2] = Sdbm(d, seed)
    /\ h[3] = Sdbm(v, seed)
    /\ h[4] = h[3]
    /\ same /\ UNCHANGED ih
==============================================================================
