------------------------------- MODULE LexText -------------------------------
(* Comments, delimited text and quoted literals.                             *)
EXTENDS Utf8
\* --- a comment up to the end of its line.  A backslash right before the line
\* break continues it on the next line; whether a backslash followed by other text
\* does is not specified: all acceptable <<end, lines passed>>
EolFrom(s, i) == LET P == {k \in i..Len(s) : Chr(s, k) \in {0, 10}} IN CHOOSE k \in P : \A j \in P : k <= j
RECURSIVE LineEnds(_, _, _)
LineEnds(s, i, n) ==
    LET c == Chr(s, i)  j == EolFrom(s, i) IN
    IF c \in {0, 10} THEN {<<i, n>>}
    ELSE IF c # 92 THEN LineEnds(s, i + 1, n)
    ELSE (IF Chr(s, j) = 0 THEN {<<j, n>>} ELSE LineEnds(s, j + 1, n + 1))
         \union (IF j = i + 1 THEN {} ELSE LineEnds(s, i + 1, n))
\* --- a block comment: its first character is passed, then the first end token after it
\* (whether the token may start at the second character is not specified): acceptable
\* <<end, end of the text before the token, terminated>>
BlockEnds(s, i, tok) ==
    IF i >= Len(s) THEN {<<i, i, FALSE>>}
    ELSE LET end(p) == IF p < 0 THEN <<Len(s), Len(s), FALSE>> ELSE <<p + Len(tok), p, TRUE>>
         IN  {end(FindFrom(s, tok, i + 1))} \union (IF OccursAt(s, tok, i + 1) THEN {end(FindFrom(s, tok, i + 2))} ELSE {})
\* --- quoted literal: position of the closing quote, or the end
RECURSIVE CloseQuote(_, _, _, _)
CloseQuote(s, i, q, esc) ==
    LET c == Chr(s, i) IN
    IF c = 0 \/ c = q THEN i
    ELSE CloseQuote(s, IF c = esc /\ i + 1 < Len(s) THEN i + 2 ELSE i + 1, q, esc)
RECURSIVE CloseMulti(_, _, _, _)
CloseMulti(s, i, q, esc) ==
    IF i >= Len(s) THEN <<Len(s), FALSE>>
    ELSE IF OccursAt(s, q, i) THEN <<i + Len(q), TRUE>>
    ELSE CloseMulti(s, IF Chr(s, i) = esc /\ i + 1 < Len(s) THEN i + 2 ELSE i + 1, q, esc)
\* --- newline conversion
RECURSIVE FixNewlines(_, _)
FixNewlines(s, tabs) ==
    IF s = <<>> THEN <<>>
    ELSE IF Head(s) = 13 THEN <<10>> \o FixNewlines(IF Len(s) > 1 /\ s[2] = 10 THEN SubSeq(s, 3, Len(s)) ELSE Tail(s), tabs)
    ELSE (IF Head(s) = 9 /\ tabs THEN <<32, 32, 32, 32>> ELSE <<Head(s)>>) \o FixNewlines(Tail(s), tabs)
\* --- escapes: the outcome of the escape whose backslash is at i
\*   [k |-> "code", v, end] | [k |-> "err", e] | [k |-> "free"]
RECURSIVE HexRun(_, _)
HexRun(s, i) == IF IsHex(Chr(s, i)) THEN 1 + HexRun(s, i + 1) ELSE 0
RECURSIVE OctRun(_, _)
OctRun(s, i) == IF IsOct(Chr(s, i)) THEN 1 + OctRun(s, i + 1) ELSE 0
RECURSIVE HexNum(_, _, _, _)     \* value of n hex digits at i, -1 beyond the last code point
HexNum(s, i, n, acc) == IF acc < 0 \/ n = 0 THEN acc
    ELSE LET v == acc * 16 + HexVal(Chr(s, i)) IN HexNum(s, i + 1, n - 1, IF v > 1114111 THEN -1 ELSE v)
RECURSIVE OctNum(_, _, _, _)
OctNum(s, i, n, acc) == IF n = 0 THEN acc ELSE OctNum(s, i + 1, n - 1, acc * 8 + Chr(s, i) - 48)
Code(v, e) == [k |-> "code", v |-> v, end |-> e]
EErr(e) == [k |-> "err", e |-> e]
EFree == [k |-> "free"]
Simple == [x \in {97, 114, 98, 116, 118, 110, 78, 102, 101} |->
    CASE x = 97 -> 7 [] x = 114 -> 13 [] x = 98 -> 8 [] x = 116 -> 9 [] x = 118 -> 11 [] x \in {110, 78} -> 10 [] x = 102 -> 12 [] x = 101 -> 27]
\* digits at i
HexEsc(s, i) == LET n == HexRun(s, i)  v == HexNum(s, i, n, 0) IN
    IF n = 0 \/ v < 0 THEN EErr("BadHexChar") ELSE IF Surrogate(v) THEN EFree ELSE Code(v, i + n)
OctEsc(s, i) == LET n == IF OctRun(s, i) > 3 THEN 3 ELSE OctRun(s, i) IN
    IF n = 0 THEN EErr("BadOctalChar") ELSE Code(OctNum(s, i, n, 0), i + n)
UniEsc(s, i, want) == LET v == HexNum(s, i, want, 0) IN
    IF HexRun(s, i) < want THEN EErr("BadUnicodeChar")
    ELSE IF v < 0 \/ Surrogate(v) \/ (v < 160 /\ v \notin {36, 64, 96}) THEN EErr("BadUnicodeChar")
    ELSE Code(v, i + want)
Escape(s, i, go) ==
    LET c == Chr(s, i + 1)  r == CASE c \in {120, 88} -> HexEsc(s, i + 2)
                                  [] c \in 48..57 -> OctEsc(s, i + 1)
                                  [] c = 117 -> UniEsc(s, i + 2, 4)
                                  [] c = 85 -> UniEsc(s, i + 2, 8)
                                  [] OTHER -> EFree
    IN  IF c = 0 THEN EErr("SuddenEoFStr")
        ELSE IF c \in DOMAIN Simple THEN Code(Simple[c], i + 2)
        ELSE IF c \notin ({120, 88, 117, 85} \union 48..57) THEN [k |-> "raw", v |-> c, end |-> i + 2]
        ELSE IF r.k = "code" /\ (r.v = 0 \/ (IsOct(c) /\ r.v > 255)) THEN EFree       \* NUL bytes, octal beyond \377
        ELSE IF go /\ c \in {120, 88} /\ HexRun(s, i + 2) # 2 THEN EFree               \* Go wants exactly two, three
        ELSE IF go /\ IsOct(c) /\ OctRun(s, i + 1) < 3 THEN EFree
        ELSE IF go /\ c \in {117, 85} /\ r.k = "err" /\ HexRun(s, i + 2) >= 4 /\ HexNum(s, i + 2, IF c = 117 THEN 4 ELSE 8, 0) \in 0..159 THEN EFree
        ELSE r
\* --- the literal whose opening quote q is at i - 1: reads from i
RECURSIVE Literal(_, _, _, _, _, _)
Literal(s, i, q, raw, go, acc) ==
    LET c == Chr(s, i) IN
    IF c = q THEN [k |-> "ok", end |-> i + 1, buf |-> acc]
    ELSE IF c = 0 THEN EErr("SuddenEoFStr")
    ELSE IF c # 92 \/ raw THEN Literal(s, i + 1, q, raw, go, Append(acc, c))
    ELSE LET e == Escape(s, i, go) IN
         CASE e.k = "code" -> Literal(s, e.end, q, raw, go, acc \o Encode(e.v))
           [] e.k = "raw" -> Literal(s, e.end, q, raw, go, Append(acc, e.v))
           [] OTHER -> e
==============================================================================
