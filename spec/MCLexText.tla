------------------------------ MODULE MCLexText ------------------------------
(* Comments, delimited and quoted text: every text up to a length.           *)
EXTENDS Lex, MCBase
CONSTANTS MaxLen, Kind, Alphabet
VARIABLE txt
vars == <<txt, lex, op>>
A1 == {97, 92, 10, 42, 47}          \* a \ newline * /
A2 == {97, 92, 34, 39, 10}          \* a \ " ' newline
A3 == {97, 95, 32, 10, 59, 200}     \* a _ space newline ; byte of a wide character
A4 == {97, 13, 10, 9}               \* a CR LF TAB
A5 == {34, 92, 48, 55, 120, 102, 117, 110, 97, 96, 51}   \* " \ 0 7 x f u n a ` 3
MCInit == LexInit /\ op = <<"reset">> /\ txt = <<>>
Calls(t) == CASE Kind = "comment" -> {<<"cskip", t>>, <<"clex", t>>, <<"cclear", t>>, <<"bskip", <<42, 47>>, t>>, <<"blex", <<42, 47>>, t>>, <<"bclear", <<42, 47>>, t>>,
                                      <<"bskip", <<42>>, t>>, <<"blex", <<42>>, t>>, <<"bclear", <<42>>, t>>}
              [] Kind = "quote" -> {<<"skipquote", 92, t>>, <<"skipquote", 97, t>>, <<"mskip", <<34, 34>>, 92, t>>, <<"mlex", <<34, 34>>, t>>, <<"mlex", <<39>>, t>>, <<"mskip", <<39>>, 92, t>>}
              [] Kind = "scan" -> {<<"skip", "ws", t>>, <<"skip", "id", t>>, <<"skipline", "ws", t>>, <<"while", "id", t>>, <<"ident", t>>, <<"until", 59, t>>, <<"whilerunes", "alpha", t>>, <<"whilerunes", "wide", t>>}
              [] Kind = "newline" -> {<<"fixnl", 0, t>>, <<"fixnl", 1, t>>}
              [] OTHER -> {<<"str", "c", <<34>> \o t>>, <<"str", "go", <<34>> \o t>>, <<"str", "c", <<34>> \o t \o <<34, 33>> >>, <<"str", "go", <<96>> \o t \o <<96>> >>,
                           <<"esc", "hex", t>>, <<"esc", "oct", t>>, <<"esc", "u", t>>}
MCNext == /\ Len(txt) < MaxLen
          /\ \E c \in Alphabet : txt' = Append(txt, c)
          /\ \E w \in Calls(txt') : op' = w
          /\ UNCHANGED lex
MCSpec == MCInit /\ [][MCNext]_vars
View == txt
Emit == Edge(0, 0)
\* --- laws
AllEnds(t) == {x[1] : x \in LineEnds(t, 0, 0)} \union {x[1] : x \in BlockEnds(t, 0, <<42, 47>>)} \union {CloseQuote(t, 1, Chr(t, 0), 92), CloseMulti(t, 0, <<34, 34>>, 92)[1]}
Bounded == txt # <<>> => AllEnds(txt) \subseteq 0..Len(txt)
\* a line comment ends at the end of a line, its line count is the number of breaks passed
LineLaw == \A x \in LineEnds(txt, 0, 0) : Chr(txt, x[1]) \in {0, 10} /\ x[2] = Newlines(txt, 0, x[1])
BlockLaw == \A x \in BlockEnds(txt, 0, <<42, 47>>) : x[3] => OccursAt(txt, <<42, 47>>, x[1] - 2)
\* blanking: same length, same line breaks, nothing outside touched
BlankLaw == \A x \in BlockEnds(txt, 0, <<42, 47>>) : LET b == Blanked(txt, 0, x[1]) IN
    Len(b) = Len(txt) /\ \A k \in 1..Len(txt) : (b[k] = 10) = (txt[k] = 10) /\ (k > x[1] => b[k] = txt[k])
\* converted text has no carriage return, and converting again changes nothing
NewlineLaw == LET f == FixNewlines(txt, FALSE) IN (\A k \in 1..Len(f) : f[k] # 13) /\ FixNewlines(f, FALSE) = f
\* escaping a text and lexing the literal gives it back; without escapes the text is taken verbatim
RECURSIVE Escaped(_, _)
Escaped(t, q) == IF t = <<>> THEN <<>> ELSE (IF Head(t) \in {92, q} THEN <<92, Head(t)>> ELSE <<Head(t)>>) \o Escaped(Tail(t), q)
EscapeLaw == LET o == Literal(Append(Escaped(txt, 34), 34), 0, 34, FALSE, FALSE, <<>>) IN o = [k |-> "ok", end |-> Len(Escaped(txt, 34)) + 1, buf |-> txt]
Octal(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
HexC(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Uni(r) == <<92, 117>> \o [k \in 1..4 |-> HexC((r \div (CASE k = 1 -> 4096 [] k = 2 -> 256 [] k = 3 -> 16 [] OTHER -> 1)) % 16)]
ASSUME \A c \in 1..255, g \in BOOLEAN : Literal(Octal(c) \o <<51, 34>>, 0, 34, FALSE, g, <<>>).buf = Encode(c) \o <<51>>
ASSUME \A r \in {36, 160, 255, 2047, 2048, 55295, 57344, 65533} : Literal(Uni(r) \o <<97, 34>>, 0, 34, FALSE, FALSE, <<>>).buf = Encode(r) \o <<97>>
==============================================================================
