------------------------------ MODULE MCLexNum -------------------------------
(* Every number-like text up to a length after each of a few beginnings, and *)
(* the automata of LexNum checked against grammars of the literals.          *)
EXTENDS Lex, MCBase
CONSTANTS MaxLen
Begin == {<<>>, <<48>>, <<48, 120>>, <<48, 98>>, <<48, 111>>, <<49, 46>>, <<49, 101>>, <<48, 120, 49, 46>>, <<48, 120, 65, 112>>, <<49, 108>>, <<49, 50, 117>>}
\* 0 1 7 9 a(A) f e . + - ' _ u l p x b ; o
CAlphabet == {48, 49, 57, 65, 102, 101, 46, 43, 39, 117, 76, 112, 120, 59}
GoAlphabet == {48, 49, 57, 97, 102, 69, 46, 45, 95, 105, 80, 120, 59}
VARIABLE txt, sty, more
vars == <<txt, sty, more, lex, op>>
MCInit == LexInit /\ op = <<"reset">> /\ sty \in {"c", "go"} /\ txt \in Begin /\ more = MaxLen
Call == op' = <<"num", sty, txt'>>
MCNext == /\ more > 0
          /\ \E c \in (IF sty = "c" THEN CAlphabet ELSE GoAlphabet) : txt' = Append(txt, c)
          /\ more' = more - 1
          /\ Call
          /\ UNCHANGED <<sty, lex>>
MCSpec == MCInit /\ [][MCNext]_vars
View == <<txt, sty, more>>
Emit == Edge(0, 0)
\* --- grammars, as sets of positions: P(s, i) is the set of ends of a phrase that starts at i
Lit(s, A, c) == {i + 1 : i \in {j \in A : Chr(s, j) = c \/ Low(Chr(s, j)) = c}}
Opt(A, B) == A \union B
RECURSIVE Digs(_, _, _, _)     \* digit {[sep] digit}: all ends
Digs(s, i, k, sep) == IF ~Class(k, Chr(s, i)) THEN {}
                      ELSE {i + 1} \union Digs(s, i + 1, k, sep) \union (IF Chr(s, i + 1) = sep THEN Digs(s, i + 2, k, sep) ELSE {})
DigsA(s, A, k, sep) == UNION {Digs(s, i, k, sep) : i \in A}
Sgn(s, A) == A \union {i + 1 : i \in {j \in A : Chr(s, j) \in {43, 45}}}
IntSfx(s, A) == LET u(X) == Lit(s, X, 117)  ll(X) == Lit(s, X, 108) \union Lit(s, Lit(s, X, 108), 108)
                IN  A \union u(A) \union ll(A) \union ll(u(A)) \union u(ll(A))
FltSfx(s, A) == A \union Lit(s, A, 102) \union Lit(s, A, 108)
Expo(s, A, mark, sep) == DigsA(s, Sgn(s, Lit(s, A, mark)), "dec", sep)
\* C
CInt(s) == LET d == IF Chr(s, 0) = 48 THEN Digs(s, 0, "oct", 39) ELSE Digs(s, 0, "dec", 39)
               x == DigsA(s, Lit(s, Lit(s, {0}, 48), 120), "hex", 39)
               b == DigsA(s, Lit(s, Lit(s, {0}, 48), 98), "bin", 39)
           IN  Len(s) \in IntSfx(s, d \union x \union b)
CFlt(s) == LET m == Digs(s, 0, "dec", 39)
               f == Lit(s, m, 46) \union DigsA(s, Lit(s, m, 46), "dec", 39) \union DigsA(s, Lit(s, {0}, 46), "dec", 39)
               hm == DigsA(s, Lit(s, Lit(s, {0}, 48), 120), "hex", 39)
               hf == hm \union Lit(s, hm, 46) \union DigsA(s, Lit(s, hm, 46), "hex", 39)
           IN  Len(s) \in FltSfx(s, f \union Expo(s, m \union f, 101, 39) \union Expo(s, hf, 112, 39))
\* Go (prefix digits may start with a separator)
GoInt(s) == LET pre(c, k) == LET p == Lit(s, Lit(s, {0}, 48), c) IN DigsA(s, p \union Lit(s, p, 95), k, 95)
            IN  Len(s) \in Digs(s, 0, "dec", 95) \union pre(120, "hex") \union pre(98, "bin") \union pre(111, "oct")
GoFlt(s) == LET m == Digs(s, 0, "dec", 95)
                f == Lit(s, m, 46) \union DigsA(s, Lit(s, m, 46), "dec", 95) \union DigsA(s, Lit(s, {0}, 46), "dec", 95)
                p == Lit(s, Lit(s, {0}, 48), 120)
                hm == DigsA(s, p \union Lit(s, p, 95), "hex", 95)
                hf == hm \union Lit(s, hm, 46) \union DigsA(s, Lit(s, hm, 46), "hex", 95) \union DigsA(s, Lit(s, p, 46), "hex", 95)
            IN  Len(s) \in f \union Expo(s, m \union f, 101, 95) \union Expo(s, hf, 112, 95)
Accepts(o, s, flt) == o.k = "out" /\ o.errs = {"NoErr"} /\ o.end = Len(s) /\ o.flt = flt
Grammar == LET s == txt  o == Read(sty, s, 0)
               int == IF sty = "c" THEN CInt(s) ELSE GoInt(s)
               flt == IF sty = "c" THEN CFlt(s) ELSE GoFlt(s)
           IN  s # <<>> /\ o.k # "free" =>
               /\ (int => Accepts(o, s, FALSE))
               /\ (flt => Accepts(o, s, TRUE))
               /\ (Accepts(o, s, FALSE) => int)
               /\ (Accepts(o, s, TRUE) => flt)
\* the reading stays within the text, and a valid literal ends where no number character follows that would extend it
Within == LET o == Read(sty, txt, 0) IN o.k = "out" => o.end \in 0..Len(txt)
==============================================================================
