-------------------------------- MODULE MCStr --------------------------------
EXTENDS Str, MCBase
CONSTANTS MaxLen, Editable
Texts == {<<97>>, <<65, 32>>, <<97, 98>>}
Needles == {<<97>>, <<97, 97>>, <<98, 97>>}
Chars == {97, 65, 32}
Do(w) == op' = w
MCInit == StrInit /\ op = <<"reset">>
B(b) == IF b THEN 1 ELSE 0
Ask(o) == Exists(o) /\ Same
Basic(o) ==
    \/ \E k \in {0, 1, 2}, t \in {<<>>, <<97>>} : New(o, t, TRUE) /\ Do(<<"new", o, k, t>>)
    \/ Exists(o) /\ Release(o) /\ Do(<<"release", o>>)
    \/ Clear(o) /\ Do(<<"clear", o>>)
Edits(o) ==
    \/ \E c \in Chars : AddChar(o, c, TRUE) /\ Do(<<"add_char", o, c>>)
    \/ \E n \in {0, 2, -1} : AddRep(o, 97, n, ~Huge(n)) /\ Do(<<"add_rep", o, 97, n>>)
    \/ \E t \in Texts \union {<<>>} : ((AddText(o, t, TRUE) /\ Do(<<"add_cstr", o, t>>))
          \/ (SetText(o, t, t # <<>>) /\ Do(<<"copy_cstr", o, t>>))
          \/ (SetText(o, t, t # <<>>) /\ Do(<<"read", o, "file", t>>))
          \/ (Ask(o) /\ Do(<<"cmp_cstr", o, t>>)))
    \/ SetText(o, <<>>, FALSE) /\ Do(<<"read", o, "nofile", <<>> >>)
    \/ \E p \in Objs : Exists(p) /\ ((AddText(o, S(p), TRUE) /\ Do(<<"add_str", o, B(o = p)>>))
          \/ (SetText(o, S(p), TRUE) /\ Do(<<"copy_str", o, B(o = p)>>))
          \/ (Ask(o) /\ Do(<<"cmp_str", o, B(o = p)>>)))
    \/ \E f \in {0, 1} : Format(o, f = 1, <<91, 97, 58, 45, 55, 93>>, 6) /\ Do(<<"format", o, f, 2, <<97>>, -7>>)
    \/ \E a, b \in {97, 65, 0} : ReplaceChar(o, a, b, a # 0 /\ b # 0 /\ SomeC(S(o), LAMBDA c : c = a)) /\ Do(<<"rep_char", o, a, b>>)
    \/ \E n \in Needles \union {<<>>}, w \in {<<>>, <<98>>, <<97, 97, 97>>}, k \in {0, 1, 2, -1} :
          ReplaceText(o, n, w, k, Count(S(o), n) > 0) /\ Do(<<"rep_cstr", o, n, w, k>>)
    \/ \E lo \in 0..MaxLen, hi \in (0..MaxLen) \union {-1}, w \in {<<>>, <<98, 98>>} :
          ReplaceRange(o, lo, hi, w, RangeOk(o, lo, hi)) /\ Do(<<"rep_range", o, lo, hi, w>>)
    \/ \E r \in BOOLEAN : Upper(o, r) /\ Do(<<"upper", o>>)
    \/ \E r \in BOOLEAN : Lower(o, r) /\ Do(<<"lower", o>>)
    \/ Rev(o, TRUE) /\ Do(<<"reverse", o>>)
    \/ \E c \in Chars, n \in 0..MaxLen : RmChar(o, c, n) /\ Do(<<"rm_char", o, c>>)
    \/ \E n \in 0..MaxLen : Trim(o, n) /\ Do(<<"trim", o>>)
    \/ \E c \in Chars : Ask(o) /\ (Do(<<"count_char", o, c>>) \/ Do(<<"find_char", o, c>>))
    \/ \E n \in Needles \union {<<>>} : Ask(o) /\ (Do(<<"count_cstr", o, n>>) \/ Do(<<"offsets", o, n, 3>>))
    \/ Ask(o) /\ (Do(<<"empty", o>>) \/ Do(<<"palindrome", o>>) \/ Do(<<"scan_chars", o>>) \/ Do(<<"scan_int", o>>))
MCNext == \E o \in Objs : Basic(o) \/ (o \in Editable /\ Edits(o))
MCSpec == MCInit /\ [][MCNext]_<<str, op>>
Bound == Len(S(1)) <= MaxLen /\ Len(S(2)) <= 1
View == str
Emit == Edge(str, str')
\* laws of the vocabulary itself
Laws == \A o \in Objs : LET s == S(o) IN
    /\ Reverse(Reverse(s)) = s
    /\ \A p \in Objs : Order(s, S(p)) = -Order(S(p), s) /\ (Order(s, S(p)) = 0 <=> s = S(p))
    /\ \A n \in Needles : /\ Len(Replace(s, n, <<>>, -1)) = Len(s) - Len(n) * Count(s, n)
                          /\ Replace(s, n, n, -1) = s
                          /\ Count(s, n) <= Len(Occurrences(s, n))
==============================================================================
