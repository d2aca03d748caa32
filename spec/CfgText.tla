------------------------------- MODULE CfgText -------------------------------
(* What a configuration text denotes: an ordered tree of entries             *)
(*   [k |-> key, t |-> type, v |-> value]                                     *)
(* read up to the first malformed entry; what was read before it, including  *)
(* the sections being read, is kept.  A reading context is                   *)
(*   [i: position, gi/ge: file-wide, li/le: per-section counters of iota and  *)
(*    enum, tr: entries read, st: "go" | "stop" | "free" (not specified)]     *)
EXTENDS TextOps
M == INSTANCE MathVal
N == INSTANCE LexNum
X == INSTANCE LexText
C == INSTANCE LexConv
Chr(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE 0
Part(s, i, e) == SubSeq(s, i + 1, e)
Stop(c) == [c EXCEPT !.st = "stop"]
FreeOf(c) == [c EXCEPT !.st = "free"]
\* --- blanks, comments and the optional delimiters; -1: not specified
RECURSIVE SkipTo(_, _)
SkipTo(s, i) ==
    LET c == Chr(s, i)  n == Chr(s, i + 1) IN
    IF IsSpace(c) \/ c \in {58, 44} THEN SkipTo(s, i + 1)
    ELSE IF c = 35 \/ (c = 47 /\ n = 47) THEN
         LET e == X!EolFrom(s, i) IN IF \E k \in i..e : Chr(s, k) = 92 THEN -1 ELSE SkipTo(s, e)
    ELSE IF c = 47 /\ n = 42 THEN
         IF Chr(s, i + 2) = 47 THEN -1
         ELSE LET p == FindFrom(s, <<42, 47>>, i + 2) IN IF p < 0 THEN Len(s) ELSE SkipTo(s, p + 2)
    ELSE i
\* --- numbers
Plain0(w) == SelectSeq(w, LAMBDA c : c # 39)              \* digit separators mean nothing
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
RECURSIVE HexNat(_, _)
HexNat(w, acc) == IF w = <<>> THEN acc ELSE IF acc > 60000000 THEN -1 ELSE HexNat(Tail(w), acc * 16 + N!HexVal(Head(w)))
Cut(w, S) == LET P == {k \in 1..Len(w) : w[k] \in S} IN IF P = {} THEN Len(w) + 1 ELSE CHOOSE k \in P : \A j \in P : k <= j
\* the exponent written in w after its mark, as <<sign, magnitude>>
ExpOf(w) == LET sg == IF w # <<>> /\ w[1] = 45 THEN -1 ELSE 1
                d == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
            IN  IF Len(d) > 3 THEN 9999 * sg ELSE sg * DigitsValue(d, 0)
Shifted(n, base, e) ==            \* n * base^e
    IF base = 10 /\ (e > 8 \/ e < -8) THEN M!Any0
    ELSE IF e > 25 \/ e < -25 THEN M!Any0
    ELSE IF e >= 0 THEN M!Product(M!NumV(n, 0), M!NumV(base ^ e, 0))
    ELSE M!Quotient(M!NumV(n, 0), M!NumV(base ^ (-e), 0))
NoSuffix(w, S) == SubSeq(w, 1, Cut(w, S) - 1)
FloatOf(t) ==
    LET w == Plain0(t)
        hex == Len(w) > 1 /\ ToLower(w[2]) = 120
        b == IF hex THEN NoSuffix(SubSeq(w, 3, Len(w)), {108, 76}) ELSE NoSuffix(w, {102, 70, 108, 76})
        mark == Cut(b, IF hex THEN {112, 80} ELSE {101, 69})
        man == SubSeq(b, 1, mark - 1)
        ex == IF mark > Len(b) THEN 0 ELSE ExpOf(NoSuffix(SubSeq(b, mark + 1, Len(b)), {102, 70}))
        dot == Cut(man, {46})
        frac == M!StripTail(SubSeq(man, dot + 1, Len(man)))
        digs == M!StripLead(SubSeq(man, 1, dot - 1) \o frac)
        exact == IF Len(digs) > 9 THEN M!Any0
                 ELSE LET n == IF hex THEN HexNat(digs, 0) ELSE DigitsValue(digs, 0)
                      IN  IF n < 0 THEN M!Any0 ELSE IF hex THEN Shifted(n, 2, ex - 4 * Len(frac)) ELSE Shifted(n, 10, ex - Len(frac))
    IN  IF exact.k = "num" \/ hex \/ ex # 0 \/ Len(digs) > 9 \/ Len(frac) > 6 \/ Len(digs) - Len(frac) > 3 THEN exact
        ELSE M!Irr(DigitsValue(digs, 0) * P10(6 - Len(frac)))
Flip(v) == IF v.k = "irr" THEN M!Irr(-v.n) ELSE IF v.k = "num" THEN M!Neg(v) ELSE v
IntOf(t) == LET o == C!IntLit(Plain0(t), FALSE) IN o.v
Bad(i) == [st |-> "stop", end |-> i, flt |-> FALSE, neg |-> FALSE, w |-> <<>>]
NumberAt(s, i) ==
    LET j == IF Chr(s, i) \in {43, 45} THEN i + 1 ELSE i
        o == N!Read("c", s, j)
    IN  IF ~IsDigit(Chr(s, j)) /\ Chr(s, j) # 46 THEN Bad(i)
        ELSE IF o.k = "free" THEN [Bad(i) EXCEPT !.st = "free"]
        ELSE IF o.k = "bad" THEN Bad(i)
        ELSE IF "NoErr" \notin o.errs THEN Bad(i)
        ELSE [st |-> "go", end |-> o.end, flt |-> o.flt, neg |-> Chr(s, i) = 45, w |-> Part(s, j, o.end)]
IntValue(r) ==                    \* the four 16-bit limbs, or <<>> beyond the range of the type
    LET v == IntOf(r.w)
    IN  IF C!FitsInt(v) THEN IF r.neg THEN C!Neg(v) ELSE C!U64(v)
        ELSE IF r.neg /\ C!U64(v) = <<0, 0, 0, 32768>> /\ v[5] = 0 THEN C!U64(v) ELSE <<>>
FloatValue(r) == IF r.neg THEN Flip(FloatOf(r.w)) ELSE FloatOf(r.w)
\* elements of colours: 0..255, otherwise not specified; of vectors: single precision
Channel(r) == IF r.flt THEN -1 ELSE LET v == IntValue(r) IN IF v = <<>> THEN -1 ELSE IF v[2] + v[3] + v[4] > 0 \/ v[1] > 255 THEN -1 ELSE v[1]
Axis(r) == LET prefixed == ~r.flt /\ Len(r.w) > 1 /\ r.w[1] = 48
               v == IF prefixed THEN M!Any0 ELSE FloatValue(r)
           IN  IF v.k = "num" THEN IF v.n > 16000000 \/ v.n < -16000000 THEN M!Any0 ELSE v ELSE M!Any0
RECURSIVE Channels(_, _, _)
Channels(s, i0, acc) ==
    LET i == SkipTo(s, i0)  r == NumberAt(s, i) IN
    IF i < 0 THEN [st |-> "free", end |-> 0, v |-> acc]
    ELSE IF Chr(s, i) = 93 THEN [st |-> "go", end |-> i + 1, v |-> acc]
    ELSE IF r.st # "go" THEN [st |-> r.st, end |-> i, v |-> acc]
    ELSE Channels(s, r.end, IF Len(acc) < 4 THEN Append(acc, Channel(r)) ELSE acc)
RECURSIVE Axes(_, _, _)
Axes(s, i0, acc) ==
    LET i == SkipTo(s, i0)  r == NumberAt(s, i) IN
    IF i < 0 THEN [st |-> "free", end |-> 0, v |-> acc]
    ELSE IF Chr(s, i) = 93 THEN [st |-> "go", end |-> i + 1, v |-> acc]
    ELSE IF r.st # "go" THEN [st |-> r.st, end |-> i, v |-> acc]
    ELSE Axes(s, r.end, IF Len(acc) < 4 THEN Append(acc, Axis(r)) ELSE acc)
Pad4(v, z) == [k \in 1..4 |-> IF k <= Len(v) THEN v[k] ELSE z]
\* --- generated text: counters and expressions inside keys and strings
S_enum == <<60, 101, 110, 117, 109, 62>>
S_ENUM == <<60, 69, 78, 85, 77, 62>>
S_math == <<60, 109, 97, 116, 104>>
S_include == <<60, 105, 110, 99, 108, 117, 100, 101, 62>>
S_INCLUDE == <<60, 73, 78, 67, 76, 85, 68, 69, 62>>
S_file == <<60, 102, 105, 108, 101, 62>>
S_FILE == <<60, 70, 73, 76, 69, 62>>
S_true == <<116, 114, 117, 101>>
S_false == <<102, 97, 108, 115, 101>>
S_null == <<110, 117, 108, 108>>
S_iota == <<105, 111, 116, 97>>
S_IOTA == <<73, 79, 84, 65>>
NoName == <<67, 45, 115, 116, 114, 105, 110, 103, 45, 99, 102, 103>>        \* "C-string-cfg"
Has1(t, w) == FindFrom(t, w, 0) >= 0
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)
\* n / 2^d with exactly six decimals (d <= 6)
Six(n, d) ==
    LET a == IF n < 0 THEN -n ELSE n
        int == a \div (2 ^ d)
        frac == ((a % (2 ^ d)) * 1000000) \div (2 ^ d)
        f == Decimal(frac)
    IN  (IF n < 0 THEN <<45>> ELSE <<>>) \o Decimal(int) \o <<46>> \o Zeros(6 - Len(f)) \o f
MathEnv(c) == <<M!Var(S_IOTA, M!NumV(c.gi, 0)), M!Var(S_iota, M!NumV(c.li, 0)),
                M!Var(<<69, 78, 85, 77>>, M!NumV(c.ge, 0)), M!Var(<<101, 110, 117, 109>>, M!NumV(c.le, 0))>> \o M!DefaultEnv
NotSaid == [free |-> TRUE, t |-> <<>>]
\* text t with its <math expression> replaced by the value
WithMath(t, c) ==
    LET p == FindFrom(t, S_math, 0)
        e == FindFrom(t, <<62>>, p + 5)
        x == Part(t, p + 5, e)
        v == M!Evaluate(x, MathEnv(c)).v
    IN  IF p < 0 THEN [free |-> FALSE, t |-> t]
        ELSE IF e < 0 THEN NotSaid
        ELSE IF FindFrom(t, S_math, e + 1) >= 0 THEN NotSaid
        ELSE IF M!Unclear(M!Tokens(x, 1)) THEN NotSaid
        ELSE IF v.k # "num" THEN NotSaid
        ELSE IF v.d > 6 \/ v.n > 900000 \/ v.n < -900000 \/ (v.n = 0 /\ CountOf(x, 45) > 0) THEN NotSaid
        ELSE [free |-> FALSE, t |-> Take(t, p) \o Six(v.n, v.d) \o Drop(t, e + 1)]
-----------------------------------------------------------------------------
HasKey(tr, k) == \E j \in 1..Len(tr) : tr[j].k = k
Known(t) == <<t>>                 \* a string value: <<text>>, or <<>> where it is not specified
\* F: [files: sequence of [n, c], name: <<>> or <<name>>, chain: names being read]
Content(F, n) == LET P == {j \in 1..Len(F.files) : F.files[j].n = n} IN IF P = {} THEN <<>> ELSE <<F.files[CHOOSE j \in P : TRUE].c>>
RECURSIVE KeyVal(_, _, _)
RECURSIVE Body(_, _, _)
RECURSIVE Top(_, _, _)
Put(c, key, t, v, e) == [c EXCEPT !.tr = Append(@, [k |-> key, t |-> t, v |-> v]), !.i = e]
Fresh(i) == [i |-> i, gi |-> 0, ge |-> 0, li |-> 0, le |-> 0, tr |-> <<>>, st |-> "go"]
Value(F, s, c, key) ==
    LET i == c.i  ch == Chr(s, i) IN
    IF ch = 123 THEN
        LET r == Body(F, s, [c EXCEPT !.i = i + 1, !.li = 0, !.le = 0, !.tr = <<>>])
        IN  [Put(c, key, "map", r.tr, r.i) EXCEPT !.gi = r.gi, !.ge = r.ge, !.st = r.st]
    ELSE IF ch \in {34, 39} THEN
        LET lit == X!Literal(s, i + 1, ch, FALSE, FALSE, <<>>) IN
        IF lit.k = "free" THEN FreeOf(c)
        ELSE IF lit.k # "ok" THEN Stop(c)
        ELSE LET m == WithMath(lit.buf, c) IN Put(c, key, "str", IF m.free THEN <<>> ELSE Known(m.t), lit.end)
    ELSE IF ch \in {99, 118} THEN
        LET j == SkipTo(s, i + 1) IN
        IF j < 0 THEN FreeOf(c)
        ELSE IF Chr(s, j) # 91 THEN Stop(c)
        ELSE LET r == IF ch = 99 THEN Channels(s, j + 1, <<>>) ELSE Axes(s, j + 1, <<>>)
             IN  IF r.st # "go" THEN [c EXCEPT !.st = r.st]
                 ELSE IF ch = 99 THEN Put(c, key, "color", Pad4(r.v, 0), r.end) ELSE Put(c, key, "vec", Pad4(r.v, M!NumV(0, 0)), r.end)
    ELSE IF OccursAt(s, S_true, i) THEN Put(c, key, "bool", TRUE, i + 4)
    ELSE IF OccursAt(s, S_false, i) THEN Put(c, key, "bool", FALSE, i + 5)
    ELSE IF OccursAt(s, S_null, i) THEN Put(c, key, "null", 0, i + 4)
    ELSE IF OccursAt(s, S_IOTA, i) THEN [Put(c, key, "int", <<c.gi, 0, 0, 0>>, i + 4) EXCEPT !.gi = @ + 1]
    ELSE IF OccursAt(s, S_iota, i) THEN [Put(c, key, "int", <<c.li, 0, 0, 0>>, i + 4) EXCEPT !.li = @ + 1]
    ELSE IF IsDigit(ch) \/ ch \in {43, 45, 46} THEN
        LET r == NumberAt(s, i) IN
        IF r.st # "go" THEN [c EXCEPT !.st = r.st]
        ELSE IF r.flt THEN Put(c, key, "float", FloatValue(r), r.end) ELSE Put(c, key, "int", IntValue(r), r.end)
    ELSE IF OccursAt(s, S_file, i) \/ OccursAt(s, S_FILE, i) THEN Put(c, key, "str", Known(IF F.name = <<>> THEN NoName ELSE F.name[1]), i + 6)
    ELSE Stop(c)
\* what file n denotes; ok: it could be read
LoadFile(F, n) ==
    LET x == Content(F, n) IN
    IF n = <<>> \/ x = <<>> \/ (\E j \in 1..Len(F.chain) : F.chain[j] = n) THEN [ok |-> FALSE, r |-> Fresh(0)]
    ELSE IF x[1] = <<>> \/ Len(x[1]) > 2500 THEN [ok |-> TRUE, r |-> FreeOf(Fresh(0))]    \* an empty file may be refused; a long one takes too long
    ELSE [ok |-> TRUE, r |-> Top([F EXCEPT !.name = <<n>>, !.chain = Append(@, n)], X!FixNewlines(x[1], TRUE), Fresh(0))]
Included(F, s, c) ==
    LET lit == X!Literal(s, c.i + 1, Chr(s, c.i), FALSE, FALSE, <<>>) IN
    IF Chr(s, c.i) \notin {34, 39} THEN Stop(c)
    ELSE IF lit.k = "free" THEN FreeOf(c)
    ELSE IF lit.k # "ok" THEN Stop(c)
    ELSE LET f == LoadFile(F, lit.buf) IN
         IF ~f.ok THEN [c EXCEPT !.i = lit.end]
         ELSE IF f.r.st = "free" THEN FreeOf(c)
         ELSE IF HasKey(c.tr, lit.buf) THEN Stop(c)
         ELSE Put(c, lit.buf, "map", f.r.tr, lit.end)
KeyVal(F, s, c) ==
    LET i == SkipTo(s, c.i)
        q == Chr(s, i)
        lit == X!Literal(s, i + 1, q, FALSE, FALSE, <<>>)
    IN
    IF i < 0 THEN FreeOf(c)
    ELSE IF q \notin {34, 39} THEN Stop(c)
    ELSE IF lit.k = "free" THEN FreeOf(c)
    ELSE IF lit.k # "ok" THEN Stop(c)
    ELSE IF lit.buf = <<>> THEN Stop(c)
    ELSE LET j == SkipTo(s, lit.end)
             e1 == Has1(lit.buf, S_enum)
             k1 == IF e1 THEN Replace(lit.buf, S_enum, Decimal(c.le), -1) ELSE lit.buf
             e2 == Has1(k1, S_ENUM)
             k2 == IF e2 THEN Replace(k1, S_ENUM, Decimal(c.ge), -1) ELSE k1
             c2 == [c EXCEPT !.i = j, !.le = IF e1 THEN @ + 1 ELSE @, !.ge = IF e2 THEN @ + 1 ELSE @]
             k3 == WithMath(k2, c2)
         IN  IF j < 0 THEN FreeOf(c)
             ELSE IF lit.buf \in {S_include, S_INCLUDE} THEN Included(F, s, [c EXCEPT !.i = j])
             ELSE IF k3.free THEN FreeOf(c)
             ELSE IF HasKey(c.tr, k3.t) THEN Stop(c2)
             ELSE Value(F, s, c2, k3.t)
Body(F, s, c) ==
    LET i == SkipTo(s, c.i) IN
    IF i < 0 THEN FreeOf(c)
    ELSE IF Chr(s, i) = 125 THEN [c EXCEPT !.i = i + 1]
    ELSE LET r == KeyVal(F, s, [c EXCEPT !.i = i]) IN IF r.st = "go" THEN Body(F, s, r) ELSE r
Top(F, s, c) == LET r == KeyVal(F, s, c) IN IF r.st = "go" THEN Top(F, s, r) ELSE r
\* nesting may be refused from some depth on
Deep(s) == Len(s) > 6000 \/ (Len(s) > 600 /\ Len(SelectSeq(s, LAMBDA c : c = 123)) > 100)
Denotes(files, s) == IF Deep(s) THEN FreeOf(Fresh(0)) ELSE Top([files |-> files, name |-> <<>>, chain |-> <<>>], s, Fresh(0))
==============================================================================
