------------------------------- MODULE MCUtf8 --------------------------------
(* Every byte string over representative bytes, and the encoding laws.       *)
EXTENDS Lex, MCBase
CONSTANTS MaxLen, Dense
VARIABLE txt
vars == <<txt, lex, op>>
Bytes == {65, 127, 128, 159, 160, 191, 193, 194, 223, 224, 237, 239, 240, 143, 144, 244, 245, 255}
Begin == {<<>>, <<240, 144>>, <<244, 143>>, <<240, 143>>, <<243, 128>>}
MCInit == LexInit /\ op = <<"reset">> /\ txt \in Begin
MCNext == /\ Len(txt) < MaxLen + (IF Len(txt) >= 2 /\ SubSeq(txt, 1, 2) \in Begin THEN 2 ELSE 0)
          /\ \E c \in Bytes : txt' = Append(txt, c)
          /\ \E w \in {<<"runes", "cstr", txt'>>, <<"next", txt'>>, <<"dec", Len(txt'), txt'>>, <<"dec", Len(txt), txt'>>} : op' = w
          /\ UNCHANGED lex
MCSpec == MCInit /\ [][MCNext]_vars
View == txt
Emit == Edge(0, 0)
Boundary == UNION {(b - 2)..(b + 2) : b \in {2, 127, 2047, 4095, 55295, 57343, 65535, 131071, 1048575, 1114109}}
Scalars2 == {r \in (IF Dense THEN 0..1114111 ELSE Boundary) : Scalar(r)}
\* decoding inverts encoding, and encodings are well formed
ASSUME \A r \in Scalars2 : LET e == Encode(r) IN WfLen(e, 0, Len(e)) = Len(e) /\ Value(e, 0, Len(e)) = r /\ (Len(e) > 1 => \A n \in 0..(Len(e) - 1) : WfLen(e, 0, n) = 0)
\* what is decoded is a scalar, and only its own encoding decodes to it
DecodeLaw == LET m == WfLen(txt, 0, Len(txt)) IN m > 0 => Scalar(Value(txt, 0, m)) /\ Encode(Value(txt, 0, m)) = SubSeq(txt, 1, m)
ScalarsLaw == LET x == Scalars(txt, 0) IN EncodeAll(x.v) = SubSeq(txt, 1, x.end) /\ (x.end < Len(txt) => WfLen(txt, x.end, Len(txt)) = 0)
==============================================================================
