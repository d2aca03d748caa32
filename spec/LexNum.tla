------------------------------- MODULE LexNum --------------------------------
(* Number literals of the C and Go styles as character-by-character          *)
(* automata.  A reading of text s from position i ends in an outcome         *)
(*    [k |-> "out", errs, end, flt]  the literal ends at `end`; errs is the  *)
(*                  set of acceptable results ({"NoErr"}: it is valid)       *)
(*    [k |-> "bad"]  some error is due, which one and where is not specified *)
(*    [k |-> "free"] the grammars disagree or are silent: not specified      *)
EXTENDS LexBase
Out(errs, i, flt) == [k |-> "out", errs |-> errs, end |-> i, flt |-> flt]
Err(e, i) == Out({e}, i, FALSE)
Bad == [k |-> "bad"]
Free == [k |-> "free"]
\* flags gathered while reading: U L1 L2 suffixes, DOT, E/P exponent mark, XD exponent digit,
\* MD mantissa digit, HD digit since the last dot or mark, F suffix, SEP last was a separator
Float(fl) == fl \cap {"DOT", "E", "P"} # {}
IntSuf(fl) == fl \cap {"U", "L1", "L2"} # {}
\* --- suffix letters, the same for every C integer literal
Suffix(s, i, fl, Go(_)) ==
    LET c == Low(Chr(s, i)) IN
    IF c = 117 THEN IF "U" \in fl THEN Err("TooManyUs", i)
                    ELSE IF "L1" \in fl /\ Low(Chr(s, i + 1)) = 108 THEN Err("UBetweenLs", i)
                    ELSE Go(fl \union {"U"})
    ELSE IF "L2" \in fl THEN Err("TooManyLs", i)
    ELSE Go(fl \union {IF "L1" \in fl THEN "L2" ELSE "L1"})
DecEnd(i, fl) ==
    IF "E" \in fl /\ "XD" \notin fl THEN Err("NoNumAfterExp", i)
    ELSE IF "SEP" \in fl THEN Err("DigitSepNotSepDigits", i)
    ELSE IF "MD" \notin fl THEN Free
    ELSE Out({"NoErr"}, i, Float(fl))
\* --- decimal numbers; sep: the style's digit separator, c: C style
RECURSIVE Dec(_, _, _, _, _)
Dec(cst, sep, s, i, fl) ==
    LET c == Chr(s, i)
        n == Chr(s, i + 1)
        more(f) == Dec(cst, sep, s, i + 1, f)
    IN
    IF ~(Alnum(c) \/ c \in {46, 43, 45, sep}) THEN DecEnd(i, fl)
    ELSE IF c = 46 THEN
        IF fl \cap {"DOT", "E"} # {} THEN Err("ExtraFltDot", i)
        ELSE IF IntSuf(fl) THEN Bad
        ELSE IF "SEP" \in fl \/ n = sep THEN Err("DigitSepNearDot", i)
        ELSE more(fl \union {"DOT"})
    ELSE IF c \in {43, 45} THEN
        IF "E" \notin fl \/ Low(Chr(s, i - 1)) # 101 THEN DecEnd(i, fl)
        ELSE IF ~IsDigit(n) THEN Err("NoNumAfterExp", i) ELSE more(fl)
    ELSE IF IsDigit(c) THEN
        IF IntSuf(fl) THEN Err("IntExtraSuffix", i)
        ELSE IF "F" \in fl THEN Err("FltExtraSuffix", i)
        ELSE more((fl \ {"SEP"}) \union (IF "E" \in fl THEN {"XD"} ELSE {"MD"}))
    ELSE IF c = sep THEN IF "SEP" \in fl THEN Err("ExtraDigitSeps", i) ELSE more(fl \union {"SEP"})
    ELSE IF Low(c) = 101 THEN
        IF "E" \in fl THEN Err("ExtraExp", i)
        ELSE IF "F" \in fl THEN Err("ExpAfterFltSuffix", i)
        ELSE IF "SEP" \in fl \/ n = sep THEN Err("DigitSepNotSepDigits", i)
        ELSE IF IntSuf(fl) THEN Bad
        ELSE IF "MD" \notin fl THEN Free
        ELSE more(fl \union {"E"})
    ELSE IF ~cst THEN Err("BadGylph", i)
    ELSE IF Low(c) = 102 THEN
        IF ~Float(fl) THEN Err("MissingDotOrExp", i)
        ELSE IF fl \cap {"F", "L1"} # {} THEN Err("ExtraFltSuffix", i)
        ELSE IF "E" \in fl /\ "XD" \notin fl THEN Err("FltSuffixAfterExpNoDigits", i)
        ELSE more(fl \union {"F"})
    ELSE IF Low(c) = 117 THEN
        IF "U" \notin fl /\ Float(fl) /\ ~("L1" \in fl /\ Low(n) = 108) THEN Err("IntSuffixOnFlt", i)
        ELSE Suffix(s, i, fl, more)
    ELSE IF Low(c) = 108 THEN
        IF "L2" \notin fl /\ Float(fl) /\ fl \cap {"L1", "U", "F"} # {} THEN Bad
        ELSE Suffix(s, i, fl, more)
    ELSE Err("BadGylph", i)
CDecimal(s, i) == Dec(TRUE, 39, s, i, {})
GoDecimal(s, i) == Dec(FALSE, 95, s, i, {})
\* --- C octal: '0' octal-digits suffix; a dot makes it a decimal floating number
RECURSIVE Oct(_, _, _)
FloatAhead(s, i) ==   \* the run of number characters from i contains a dot or an exponent mark
    \E j \in i..Len(s) : (\A k \in i..j : Alnum(Chr(s, k)) \/ Chr(s, k) \in {46, 39}) /\ (Chr(s, j) = 46 \/ Low(Chr(s, j)) = 101)
Oct(s, i, fl) ==
    LET c == Chr(s, i)
        more(f) == Oct(s, i + 1, f)
    IN
    IF ~(Alnum(c) \/ c \in {46, 39}) THEN IF "SEP" \in fl THEN Err("DigitSepNotSepDigits", i) ELSE Out({"NoErr"}, i, FALSE)
    ELSE IF c = 46 THEN IF fl # {} THEN Free ELSE Dec(TRUE, 39, s, i, {"MD"})
    ELSE IF IsOct(c) THEN IF IntSuf(fl) THEN Err("IntExtraSuffix", i) ELSE more(fl \ {"SEP"})
    ELSE IF c = 39 THEN IF "SEP" \in fl THEN Err("ExtraDigitSeps", i) ELSE more(fl \union {"SEP"})
    ELSE IF Low(c) \in {117, 108} THEN Suffix(s, i, fl, more)
    ELSE IF FloatAhead(s, i) THEN Free           \* 08.5, 01e5: C reads a floating number
    ELSE Err("BadGylph", i)
\* --- C binary, Go binary and Go octal: digits after a two-character prefix
RECURSIVE Pre(_, _, _, _, _, _)
Pre(cst, sep, dig, s, i, fl) ==
    LET c == Chr(s, i)
        more(f) == Pre(cst, sep, dig, s, i + 1, f)
        ok == Class(dig, c)
    IN
    IF ~(Alnum(c) \/ c = sep) THEN
        IF "SEP" \in fl THEN Err("DigitSepNotSepDigits", i)
        ELSE IF "MD" \notin fl THEN Free
        ELSE Out({"NoErr"}, i, FALSE)
    ELSE IF ok THEN IF IntSuf(fl) THEN Err("IntExtraSuffix", i) ELSE more((fl \ {"SEP"}) \union {"MD"})
    ELSE IF c = sep THEN
        IF "SEP" \in fl THEN Err("ExtraDigitSeps", i)
        ELSE IF cst /\ "MD" \notin fl THEN Free
        ELSE more(fl \union {"SEP"})
    ELSE IF cst /\ Low(c) \in {117, 108} THEN Suffix(s, i, fl, more)
    ELSE Err("BadGylph", i)
\* --- hexadecimal numbers after 0x
HexEnd(i, fl, flt) ==
    LET errs == (IF "DOT" \in fl /\ "P" \notin fl THEN {"HexFltNoExp"} ELSE {})
          \union (IF "P" \in fl /\ "HD" \notin fl THEN {"HexMissingDigits", "HexFltExpNoDigits"} ELSE {})
          \union (IF "MD" \notin fl THEN {"HexMissingDigits"} ELSE {})
          \union (IF "SEP" \in fl THEN {"DigitSepNotSepDigits"} ELSE {})
    IN  IF errs = {} THEN Out({"NoErr"}, i, flt) ELSE Out(errs, i, flt)
RECURSIVE Hex(_, _, _, _, _)
Hex(cst, sep, s, i, fl) ==
    LET c == Chr(s, i)
        n == Chr(s, i + 1)
        l == Low(c)
        more(f) == Hex(cst, sep, s, i + 1, f)
        digit == more((fl \ {"SEP"}) \union {"HD", "MD"})
    IN
    IF ~(Alnum(c) \/ c \in {46, 43, 45, sep}) THEN HexEnd(i, fl, Float(fl))
    ELSE IF c = 46 THEN
        IF fl \cap {"DOT", "P"} # {} THEN Out({"ExtraFltDot"} \union (IF cst /\ "HD" \notin fl THEN {"MissingHexB4dot"} ELSE {}), i, FALSE)
        ELSE IF cst /\ "MD" \notin fl THEN IF "SEP" \in fl THEN Bad ELSE Err("MissingHexB4dot", i)
        ELSE IF IntSuf(fl) THEN Bad
        ELSE IF "SEP" \in fl \/ n = sep THEN Err("DigitSepNearDot", i)
        ELSE more((fl \ {"HD"}) \union {"DOT"})
    ELSE IF l = 112 THEN
        IF "P" \in fl THEN Err("TooManyPs", i)
        ELSE IF "MD" \notin fl THEN IF "SEP" \in fl THEN Bad ELSE Err("HexNoDigitsB4Exp", i)
        ELSE IF IntSuf(fl) THEN Bad
        ELSE IF "SEP" \in fl \/ n = sep THEN Err("DigitSepNearExp", i)
        ELSE more((fl \ {"HD"}) \union {"P"})
    ELSE IF c \in {43, 45} THEN
        IF "P" \in fl THEN
            IF Low(Chr(s, i - 1)) # 112 THEN HexEnd(i, fl, TRUE)
            ELSE IF ~IsDigit(n) THEN Err("NoNumAfterExp", i) ELSE more(fl)
        ELSE IF ~cst THEN HexEnd(i, fl, Float(fl))
        ELSE LET e == HexEnd(i, fl, Float(fl)) IN [e EXCEPT !.errs = @ \union {"BadPlusMinusPlace"}]
    ELSE IF IsDigit(c) THEN
        IF IntSuf(fl) THEN Err("IntExtraSuffix", i)
        ELSE IF "F" \in fl THEN Err("FltExtraSuffix", i)
        ELSE digit
    ELSE IF IsHex(c) THEN
        IF "P" \notin fl THEN IF IntSuf(fl) THEN Err("IntExtraSuffix", i) ELSE digit
        ELSE IF ~cst THEN Free
        ELSE IF "HD" \notin fl THEN Out({"HexNoDigitsB4Exp", "HexFltExpNoDigits", "HexMissingDigits", "HexFltBadSuffix"}, i, FALSE)
        ELSE IF IntSuf(fl) THEN Free
        ELSE IF "F" \in fl THEN Err("FltExtraSuffix", i)
        ELSE IF l = 102 THEN more(fl \union {"F"})
        ELSE Free
    ELSE IF c = sep THEN
        IF "SEP" \in fl THEN Err("ExtraDigitSeps", i)
        ELSE IF cst /\ "MD" \notin fl THEN Free
        ELSE more(fl \union {"SEP"})
    ELSE IF cst /\ l \in {117, 108} THEN IF Float(fl) /\ (l = 117 \/ IntSuf(fl) \/ "F" \in fl) THEN Free ELSE Suffix(s, i, fl, more)
    ELSE Err("BadGylph", i)
\* --- prefixes: the character that is missing one is taken into the error
Prefixed(s, i, letter, missing, Go(_)) ==
    IF Chr(s, i) = 0 THEN Err("EoF", i)
    ELSE IF Chr(s, i) # 48 THEN Err("Missing0", i + 1)
    ELSE IF Low(Chr(s, i + 1)) # letter THEN Err(missing, IF Chr(s, i + 1) = 0 THEN i + 1 ELSE i + 2)
    ELSE Go(i + 2)
Read(style, s, i) ==
    CASE style = "chex" -> Prefixed(s, i, 120, "MissingX", LAMBDA j : Hex(TRUE, 39, s, j, {}))
      [] style = "gohex" -> Prefixed(s, i, 120, "MissingX", LAMBDA j : Hex(FALSE, 95, s, j, {}))
      [] style = "cbin" -> Prefixed(s, i, 98, "MissingB", LAMBDA j : Pre(TRUE, 39, "bin", s, j, {}))
      [] style = "gobin" -> Prefixed(s, i, 98, "MissingB", LAMBDA j : Pre(FALSE, 95, "bin", s, j, {}))
      [] style = "gooct" -> Prefixed(s, i, 111, "MissingO", LAMBDA j : Pre(FALSE, 95, "oct", s, j, {}))
      [] style = "coct" -> IF Chr(s, i) = 0 THEN Err("EoF", i) ELSE IF Chr(s, i) # 48 THEN Err("Missing0", i + 1) ELSE Oct(s, i + 1, {})
      [] style = "cdec" -> IF Chr(s, i) = 0 THEN Err("EoF", i) ELSE CDecimal(s, i)
      [] style = "godec" -> IF Chr(s, i) = 0 THEN Err("EoF", i) ELSE GoDecimal(s, i)
      [] style = "c" ->
           IF Chr(s, i) = 48 THEN
               CASE Low(Chr(s, i + 1)) = 120 -> Hex(TRUE, 39, s, i + 2, {})
                 [] Low(Chr(s, i + 1)) = 98 -> Pre(TRUE, 39, "bin", s, i + 2, {})
                 [] IsDigit(Chr(s, i + 1)) -> Oct(s, i + 1, {})
                 [] Chr(s, i + 1) = 39 -> LET o == Oct(s, i + 1, {}) IN IF o = CDecimal(s, i) THEN o ELSE Free
                 [] OTHER -> CDecimal(s, i)
           ELSE IF IsDigit(Chr(s, i)) \/ Chr(s, i) = 46 THEN CDecimal(s, i)
           ELSE Out({"NoErr"}, i, FALSE)
      [] style = "go" ->
           IF Chr(s, i) = 48 THEN
               CASE Low(Chr(s, i + 1)) = 120 -> Hex(FALSE, 95, s, i + 2, {})
                 [] Low(Chr(s, i + 1)) = 98 -> Pre(FALSE, 95, "bin", s, i + 2, {})
                 [] Low(Chr(s, i + 1)) = 111 -> Pre(FALSE, 95, "oct", s, i + 2, {})
                 [] OTHER -> GoDecimal(s, i)
           ELSE IF IsDigit(Chr(s, i)) \/ Chr(s, i) = 46 THEN GoDecimal(s, i)
           ELSE Out({"NoErr"}, i, FALSE)
Styles == {"c", "go", "chex", "gohex", "cbin", "gobin", "coct", "gooct", "cdec", "godec"}
==============================================================================
