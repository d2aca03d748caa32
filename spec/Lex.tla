--------------------------------- MODULE Lex ---------------------------------
(* The lexer: a text, a cursor and a line counter.  Every operation reads at *)
(* the cursor (or at the start of a fresh text), collects text in an empty   *)
(* buffer, and leaves the cursor where its construct ends.  The cursor never *)
(* leaves 0..Len(text).                                                      *)
EXTENDS LexNum, LexText, LexConv
VARIABLE lex
LexInit == lex = [text |-> <<>>, pos |-> 0, line |-> 0]
TypeOK == lex.pos \in 0..Len(lex.text) /\ lex.line >= 0
Same == lex' = lex
Go2(s, e, n) == /\ e \in 0..Len(s)
                /\ lex' = [text |-> s, pos |-> e, line |-> n]
Part(s, i, e) == SubSeq(s, i + 1, e)
SetCursor(i) == i \in 0..Len(lex.text) /\ lex' = [lex EXCEPT !.pos = i]
\* --- numbers (result r, cursor e, collected text b, floating f)
Number(style, s, i, n, r, e, b, f) ==
    \E o \in {Read(style, s, i)} :
    /\ Go2(s, e, n)
    /\ CASE o.k = "free" -> TRUE
         [] o.k = "bad" -> r # "NoErr"
         [] OTHER -> /\ r \in o.errs
                     /\ e = o.end
                     /\ (b = Part(s, i, e) \/ (r # "NoErr" /\ e < Len(s) /\ b = Part(s, i, e + 1)))
                     /\ (r = "NoErr" => f = o.flt)
Ident(s, i, n, r, e, b) ==
    /\ r = IdStart(Chr(s, i))
    /\ e = (IF r THEN SkipClass("id", s, i) ELSE i)
    /\ b = Part(s, i, e)
    /\ Go2(s, e, n)
\* --- scanning
SkipWhile(k, s, i, n, e, n2) == /\ e = SkipClass(k, s, i)
                                /\ n2 = n + Newlines(s, i, e)
                                /\ Go2(s, e, n2)
RECURSIVE SkipInLine(_, _, _)
SkipInLine(k, s, i) == IF Chr(s, i) \notin {0, 10} /\ Class(k, Chr(s, i)) THEN SkipInLine(k, s, i + 1) ELSE i
SkipLine(k, s, i, n, e) == e = SkipInLine(k, s, i) /\ Go2(s, e, n)
LexWhile(k, s, i, n, r, e, b) == /\ e = SkipClass(k, s, i)
                                 /\ b = Part(s, i, e)
                                 /\ r = (e > i)
                                 /\ Go2(s, e, n)
LexTo(c, s, i, n, r, e, b) == LET P == {k \in i..Len(s) : Chr(s, k) \in {0, c}} IN
    /\ e \in P
    /\ \A k \in P : e <= k
    /\ b = Part(s, i, e)
    /\ r = (e > i)
    /\ Go2(s, e, n)
\* runes of a class; malformed text is refused where it starts
RuneClass(k, v) == CASE k = "wide" -> v # 59 [] k = "solid" -> v > 32 [] k = "far" -> v >= 128 [] OTHER -> v < 128 /\ Class(k, v)
RECURSIVE RunesOf(_, _, _)
RunesOf(k, s, i) == LET m == WfLen(s, i, Len(s)) IN
    IF i >= Len(s) THEN <<i, TRUE>>
    ELSE IF m = 0 THEN <<i, FALSE>>
    ELSE IF RuneClass(k, Value(s, i, m)) THEN RunesOf(k, s, i + m)
    ELSE <<i, TRUE>>
LexRunes(k, s, i, n, r, e, b) == \E x \in {RunesOf(k, s, i)} :
    /\ e = x[1]
    /\ b = Part(s, i, e)
    /\ r = (x[2] /\ e > i)
    /\ Go2(s, e, n)
SkipQuoted(esc, s, i, n, e) == /\ i < Len(s)
                               /\ e = CloseQuote(s, i + 1, Chr(s, i), esc)
                               /\ Go2(s, e, n)
SkipComment(s, i, n, e, n2) == /\ <<e, n2 - n>> \in LineEnds(s, i, 0)
                               /\ Go2(s, e, n2)
LexComment(s, i, n, r, e, b, n2) == /\ <<e, n2 - n>> \in LineEnds(s, i, 0)
                                    /\ b = Part(s, i, e)
                                    /\ r = (e > i)
                                    /\ Go2(s, e, n2)
SkipBlock(tok, s, i, n, e, n2) == \E x \in BlockEnds(s, i, tok) :
    /\ e = x[1]
    /\ n2 = n + Newlines(s, i + 1, x[2])
    /\ Go2(s, e, n2)
LexBlock(tok, s, i, n, r, e, b, n2) == \E x \in BlockEnds(s, i, tok) :
    /\ e = x[1]
    /\ n2 = n + Newlines(s, i + 1, x[2])
    /\ r = x[3]
    /\ b = Part(s, i, e)
    /\ Go2(s, e, n2)
\* blanking keeps the line breaks and everything outside the construct
Blanked(s, i, e) == [k \in 1..Len(s) |-> IF k > i /\ k <= e /\ s[k] # 10 THEN 32 ELSE s[k]]
ClearComment(s, i, n, e, t) == \E x \in LineEnds(s, i, 0) :
    /\ e = x[1]
    /\ t = Blanked(s, i, e)
    /\ Go2(t, e, n)
ClearBlock(tok, s, i, n, e, t) == \E x \in BlockEnds(s, i, tok) :
    /\ e = x[1]
    /\ (t = Blanked(s, i, e) \/ (Chr(s, i) = 10 /\ t = [Blanked(s, i, e) EXCEPT ![i + 1] = 32]))   \* no comment starts with a line break
    /\ Go2(t, e, n)
SkipMulti(q, esc, s, i, n, e) == /\ e = CloseMulti(s, i, q, esc)[1]
                                 /\ Go2(s, e, n)
LexMulti(q, s, i, n, r, e, b, n2) ==
    LET start == IF OccursAt(s, q, i) THEN i + Len(q) ELSE i
        p == FindFrom(s, q, start)
        stop == IF p < 0 THEN Len(s) ELSE p
    IN  /\ b = Part(s, start, stop)
        /\ e = (IF p < 0 THEN Len(s) ELSE p + Len(q))
        /\ r = (p >= 0)
        /\ n2 = n + Newlines(s, start, stop)
        /\ Go2(s, e, n2)
NewlinesFixed(tabs, s, t) == t = FixNewlines(s, tabs) /\ lex' = [text |-> t, pos |-> 0, line |-> 0]
\* --- quoted literals
Quoted(style, s, i, n, r, e, b) ==
    \E o \in {Literal(s, i + 1, Chr(s, i), style = "go" /\ Chr(s, i) = 96, style = "go", <<>>)} :   \* evaluated once
        /\ i < Len(s)
        /\ Go2(s, e, n)
        /\ CASE o.k = "free" -> TRUE
             [] o.k = "err" -> r = o.e
             [] OTHER -> r = "NoErr" /\ e = o.end /\ b = o.buf
\* the digits of an escape at the cursor: value v or -1
EscDigits(kind, s, i, n, v, e) ==
    LET o == CASE kind = "hex" -> HexEsc(s, i) [] kind = "oct" -> OctEsc(s, i) [] kind = "u" -> UniEsc(s, i, 4) [] OTHER -> UniEsc(s, i, 8)
    IN  /\ Go2(s, e, n)
        /\ CASE o.k = "free" -> TRUE
             [] o.k = "err" -> v = -1
             [] OTHER -> v = o.v /\ e = o.end
\* --- UTF-8
EncodeRune(r, len, b, b2, ok) ==       \* reported length, into memory, into a string
    /\ Same
    /\ IF Scalar(r) THEN len = Len(Encode(r)) /\ b = Encode(r) /\ (r # 0 => b2 = Encode(r)) /\ ok
       ELSE IF Surrogate(r) THEN TRUE
       ELSE len = 0 /\ b = <<>> /\ b2 = <<>> /\ ~ok
EncodeInto(r, room, k, b) ==           \* only whole sequences are written
    /\ Same
    /\ (Scalar(r) => LET x == Encode(r) IN IF Len(x) > room THEN k = 0 /\ b = <<>> ELSE k = Len(x) /\ b = x)
EncodeRange(lo, hi, b) == Same /\ b = EncodeAll([k \in 1..(hi - lo + 1) |-> lo + k - 1])
DecodeAt(s, i, n, avail, k, v, v2) ==  \* read_utf8: length and value; read_utf8_rune: value
    LET m == IF Chr(s, i) = 0 THEN 0 ELSE WfLen(s, i, i + avail) IN
    /\ lex' = [text |-> s, pos |-> i, line |-> n]
    /\ k = m
    /\ (m > 0 => v = Value(s, i, m) /\ v2 = v)
    /\ (m = 0 /\ Chr(s, i) # 0 => v = -1 /\ v2 = -1)
NextRune(s, i, n, v, e) ==             \* utf8_to_rune_iter
    LET m == IF i >= Len(s) THEN 0 ELSE WfLen(s, i, Len(s)) IN
    /\ v = (IF m = 0 THEN -1 ELSE Value(s, i, m))
    /\ e = i + m
    /\ Go2(s, e, n)
Runes(s, rs, len, back, count) ==      \* to runes and back
    \E x \in {Scalars(s, 0)} :
    /\ rs = x.v
    /\ len = Len(x.v)
    /\ back = SubSeq(s, 1, x.end)
    /\ (x.end = Len(s) => count = Len(x.v))
    /\ count <= Len(s)
    /\ lex' = [text |-> s, pos |-> 0, line |-> 0]
\* --- small predicates
Classify(c, r) == Same /\ r = [k \in Classes |-> Class(k, c)]
\* the same predicates on whole runes, given as the places where they change along lo..hi; what a rune beyond
\* ASCII is among letters is left open, but letters stay possible in identifiers
Changes(lo, hi, P(_)) == {c \in lo..hi : P(c) # (c > lo /\ P(c - 1))}
UcnRune(c) == (c \in 160..1114111 /\ c \notin 55296..57343) \/ c \in {36, 64, 96}      \* what C lets \u and \U name
RuneClasses(lo, hi, r) ==
    /\ Same
    /\ Range(r.valid) = Changes(lo, hi, UcnRune)
    /\ \A k \in {"dec", "oct", "hex", "bin", "ws"} : Range(r[k]) = LET P(c) == c < 128 /\ Class(k, c) IN Changes(lo, hi, P)
    /\ (lo >= 0 => \A k \in {"alpha", "id"} : {c \in Range(r[k]) : c < 128} = LET P(c) == c < 128 /\ Class(k, c) IN {c \in Changes(lo, hi, P) : c < 128})
    /\ (lo >= 128 => r.id = r.alpha)
LeadLength(c, n) == (c < 128 => n = 1) /\ (c >= 194 /\ c < 245 => n = IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4)
CheckIs(s, j, c, len, r) == lex' = [text |-> s, pos |-> 0, line |-> 0] /\ r = (j >= 0 /\ j < len /\ Chr(s, j) # 0 /\ Chr(s, j) = c)
FindRune(s, c, r) == lex' = [text |-> s, pos |-> 0, line |-> 0] /\ r = IndexOf(s, c)
\* --- conversions
ToInt(go, s, iv, ie, uv, ue) ==
    \E o \in {IntLit(s, go)} :
    /\ lex' = [text |-> s, pos |-> 0, line |-> 0]
    /\ (o.ok => (FitsInt(o.v) => iv = U64(o.v)) /\ ie = o.end /\ (FitsUint(o.v) => uv = U64(o.v)) /\ ue = o.end)
ToBase(s, base, num, ir, iv, ur, uv) ==
    LET neg == s # <<>> /\ Head(s) = 45 /\ 45 \notin Range(num)
        d == IF neg THEN Tail(s) ELSE s
        digs == SubSeq(num, 1, base)
        known == Range(d) \subseteq Range(digs)
        v == Digits2(d, base, digs, Zero5)
    IN  /\ lex' = [text |-> s, pos |-> 0, line |-> 0]
        /\ (\E c \in Range(d) : c \notin Range(num) \union {45}) => ~ir
        /\ (\E c \in Range(s) : c \notin Range(num)) => ~ur
        /\ (d # <<>> /\ known => ir /\ (FitsInt(v) => iv = IF neg THEN Neg(v) ELSE U64(v)))
        /\ (~neg /\ d # <<>> /\ known => ur /\ (FitsUint(v) => uv = U64(v)))
ToFloat(s, x1000, x16) ==              \* decimal with up to three decimals / hexadecimal with one, small positive exponents
    LET RECURSIVE Pow(_, _)
        Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
        RECURSIVE Num(_, _, _, _)
        Num(i, j, base, acc) == IF i >= j THEN acc ELSE Num(i + 1, j, base, acc * base + DigitVal(Chr(s, i)))
        hex == Chr(s, 0) = 48 /\ Low(Chr(s, 1)) = 120
        st == IF hex THEN 2 ELSE 0
        cls == IF hex THEN "hex" ELSE "dec"
        a == SkipClass(cls, s, st)
        b == IF Chr(s, a) = 46 THEN SkipClass(cls, s, a + 1) ELSE a
        fr == IF b > a THEN b - a - 1 ELSE 0
        base == IF hex THEN 16 ELSE 10
        man == Num(st, a, base, 0) * Pow(base, fr) + Num(a + 1, b, base, 0)
        ex == IF Low(Chr(s, b)) = (IF hex THEN 112 ELSE 101) THEN Num(IF Chr(s, b + 1) = 43 THEN b + 2 ELSE b + 1, SkipClass("dec", s, IF Chr(s, b + 1) = 43 THEN b + 2 ELSE b + 1), 10, 0) ELSE 0
    IN  /\ lex' = [text |-> s, pos |-> 0, line |-> 0]
        /\ IF hex THEN x16 = man * Pow(16, 1 - fr) * Pow(2, ex) ELSE x1000 = man * Pow(10, 3 - fr) * Pow(10, ex)
==============================================================================
