------------------------------- MODULE LexBase -------------------------------
(* Vocabulary of the lexer specifications: texts are sequences of bytes, a   *)
(* construct is read at 0-based position i, Chr beyond the end is the NUL     *)
(* that terminates every text.                                               *)
EXTENDS TextOps
Chr(s, i) == IF i >= 0 /\ i < Len(s) THEN s[i + 1] ELSE 0
Alpha(c) == IsLower(c) \/ IsUpper(c)
Alnum(c) == Alpha(c) \/ IsDigit(c)
IsOct(c) == c >= 48 /\ c <= 55
IsBin(c) == c = 48 \/ c = 49
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Low(c) == ToLower(c)
Range(s) == {s[k] : k \in 1..Len(s)}
\* identifiers: letters, underscore and bytes of multi-byte characters
IdStart(c) == Alpha(c) \/ c = 95 \/ (c >= 128 /\ c < 255)
IdChar(c) == IdStart(c) \/ IsDigit(c)
\* the character classes a caller can scan with
Class(k, c) == CASE k = "alpha" -> IdStart(c) [] k = "id" -> IdChar(c) [] k = "dec" -> IsDigit(c) [] k = "oct" -> IsOct(c)
                 [] k = "hex" -> IsHex(c) [] k = "bin" -> IsBin(c) [] k = "ws" -> IsSpace(c) [] OTHER -> FALSE
Classes == {"alpha", "id", "dec", "oct", "hex", "bin", "ws"}
\* first position >= i whose character fails the class (or the end)
RECURSIVE SkipClass(_, _, _)
SkipClass(k, s, i) == IF i < Len(s) /\ Class(k, s[i + 1]) THEN SkipClass(k, s, i + 1) ELSE i
\* number of newlines in positions i..j-1
Newlines(s, i, j) == Len(SelectSeq(SubSeq(s, i + 1, j), LAMBDA c : c = 10))
ErrNames == <<"NoErr", "EoF", "Missing0", "MissingX", "MissingO", "MissingB", "MissingHexB4dot", "TooManyPs", "BadPlusMinusPlace",
    "NoNumAfterExp", "TooManyUs", "TooManyLs", "UBetweenLs", "HexFltExpNoDigits", "HexFltBadSuffix", "IntExtraSuffix", "FltExtraSuffix",
    "BadGylph", "HexMissingDigits", "HexNoDigitsB4Exp", "DigitSepNearDot", "DigitSepNearExp", "ExtraDigitSeps", "HexFltNoExp",
    "DigitSepMIADigits", "ExtraFltDot", "ExtraFltSuffix", "ExtraExp", "MissingDotOrExp", "ExpAfterFltSuffix", "FltSuffixAfterExpNoDigits",
    "IntSuffixOnFlt", "BadOctalChar", "BadHexChar", "BadUnicodeChar", "SuddenEoFStr", "DigitSepNotSepDigits">>
ErrName(n) == IF n >= 0 /\ n < Len(ErrNames) THEN ErrNames[n + 1] ELSE "?"
==============================================================================
