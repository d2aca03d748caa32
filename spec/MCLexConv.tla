------------------------------ MODULE MCLexConv ------------------------------
(* Integer literals and digit strings up to a length; limb arithmetic.       *)
EXTENDS Lex, MCBase
CONSTANTS MaxLen
VARIABLE txt
vars == <<txt, lex, op>>
Alphabet == {48, 49, 55, 57, 65, 120, 98, 111, 45}
Tables == {<<48, 49>>, <<49, 48, 55>>, <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>}
MCInit == LexInit /\ op = <<"reset">> /\ txt = <<>>
MCNext == /\ Len(txt) < MaxLen
          /\ \E c \in Alphabet : txt' = Append(txt, c)
          /\ \E w \in {<<"toint", "c", txt'>>, <<"toint", "go", txt'>>} \union {<<"tobase", k, Len(t), t, txt'>> : k \in {"cstr", "runes"}, t \in Tables} : op' = w
          /\ UNCHANGED lex
MCSpec == MCInit /\ [][MCNext]_vars
View == txt
Emit == Edge(0, 0)
\* --- laws
RECURSIVE Nat2(_, _, _)
Nat2(s, base, acc) == IF s = <<>> THEN acc ELSE Nat2(Tail(s), base, acc * base + DigitVal(Head(s)))
ASSUME \A b \in 2..36, n \in {0, 1, 7, 35, 36, 255, 4095, 65535, 65536, 1000000} :
    LET RECURSIVE D(_)
        D(k) == (IF k >= b THEN D(k \div b) ELSE <<>>) \o <<IF k % b < 10 THEN 48 + (k % b) ELSE 55 + (k % b)>>
        v == Eat(D(n), 0, b, Zero5).v
    IN  v = <<n % 65536, n \div 65536, 0, 0, 0>>
ASSUME \A v \in {<<0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0>>, <<0, 0, 1, 0, 0>>, <<65535, 65535, 65535, 32767, 0>>} :
    LET n == Neg(v) IN U64(v) = Neg(<<n[1], n[2], n[3], n[4], 0>>)
\* a decimal literal's value is the natural number it writes
DecLaw == (txt # <<>> /\ \A k \in 1..Len(txt) : IsDigit(txt[k])) /\ txt[1] # 48 =>
          LET o == IntLit(txt, FALSE) IN o.ok /\ o.end = Len(txt) /\ o.v = <<Nat2(txt, 10, 0) % 65536, Nat2(txt, 10, 0) \div 65536, 0, 0, 0>>
==============================================================================
