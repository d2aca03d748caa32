----------------------------- MODULE MCCfgWrite ------------------------------
(* Writing out every tree reachable by storing awkward values in two places, *)
(* one of them inside a section, with awkward names; and a reference writer  *)
(* showing that every such tree can be written.                              *)
EXTENDS Cfg, MCBase
vars == <<cf, op>>
Do(w) == op' = w
E(k, t, v) == [k |-> k, t |-> t, v |-> v]
\* the names hold a quote, a backslash, a line break and a tab; the empty section, too, has to survive
K == <<107, 34, 92>>
S1 == <<115, 10, 9>>
Text == <<34, 107, 92, 34, 92, 92, 34, 58, 49, 34, 115, 92, 110, 92, 116, 34, 123, 34, 107, 92, 34, 92, 92, 34, 58, 49, 34, 101, 34, 123, 125, 125, 34, 122, 34, 58, 116, 114, 117, 101>>
RECURSIVE Concrete(_)
Concrete(d) == [j \in 1..Len(d) |-> IF d[j].t = "map" THEN E(d[j].k, "map", Concrete(d[j].v)) ELSE d[j]]
Paths == {K, S1 \o <<46>> \o K}
V4(a, b, c, d) == <<a, b, c, d>>
Strings == {<<>>, <<34>>, <<92>>, <<92, 110>>, <<10>>, <<9, 9>>, <<13, 10>>, <<39>>, <<47, 47, 120>>, <<60, 70, 73, 76, 69, 62>>, <<60, 101, 110, 117, 109, 62>>, <<34, 44, 125, 34>>, <<195, 169>>, <<255>>, <<7, 1, 127>>, <<37, 115>>, <<92, 34>>, <<92, 92>>}
R(t, v, ne, w) == [t |-> t, v |-> v, ne |-> ne, w |-> w]
OfString(s) == R("str", s, Known(s), <<s>>)
OfFloat(n, d) == R("float", M!Norm(n, d), M!Norm(n, d), <<ToString(n) \o "/" \o ToString(d)>>)
Ints == << R("int", <<65535, 65535, 65535, 65535>>, <<65535, 65535, 65535, 65535>>, <<"-1">>),
           R("int", <<0, 0, 0, 32768>>, <<0, 0, 0, 32768>>, <<"-9223372036854775808">>),
           R("int", <<65535, 65535, 65535, 32767>>, <<65535, 65535, 65535, 32767>>, <<"9223372036854775807">>),
           R("null", 0, 0, <<>>), R("bool", FALSE, FALSE, <<0>>), R("color", V4(255, 0, 7, 16), V4(255, 0, 7, 16), <<255, 0, 7, 16>>),
           OfFloat(-5, 1), OfFloat(1, 20), OfFloat(1, 6), OfFloat(1, 7), OfFloat(123456789, 3), OfFloat(999999999, 0), OfFloat(0, 0),
           R("vec", V4(M!Norm(1, 1), M!Norm(-3, 0), M!Norm(1, 20), M!Norm(15000001, 4)), V4(M!Norm(1, 1), M!Norm(-3, 0), M!Norm(1, 20), M!Norm(15000001, 4)),
             <<"1/1", "-3/0", "1/20", "15000001/4">>) >>
DoSet(p, x) ==
    /\ Live
    /\ LET cs == Comps(p)  e == Find(Tree, cs)
       IN  Set(p, x.t, x.ne, TRUE, TRUE, Update(Tree, cs, E(e[1].k, x.t, x.v)))
    /\ Do(<<"set", p, x.t, 1>> \o x.w)
MCInit == cf = [files |-> <<>>, tree |-> <<>>] /\ op = <<"reset">>
MCNext == \/ ~Live /\ Parse(Text, Concrete(Denotes(<<>>, Text).tr)) /\ Do(<<"parse", Text>>)
          \/ \E p \in Paths, k \in 1..Len(Ints) : DoSet(p, Ints[k])
          \/ \E p \in Paths, s \in Strings : DoSet(p, OfString(s))
          \/ Live /\ Do(<<"render">>) /\ UNCHANGED cf
          \/ Live /\ (\E o \in {0, 1} : Do(<<"build", <<119>>, o>>)) /\ UNCHANGED cf
          \/ Live /\ Release /\ Do(<<"free">>)
MCSpec == MCInit /\ [][MCNext]_vars
View == cf.tree
Emit == Edge(cf.tree, cf'.tree)
-----------------------------------------------------------------------------
\* a reference writer
Escaped(c) == IF c \in {34, 92} THEN <<92, c>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>> ELSE IF c = 9 THEN <<92, 116>> ELSE <<c>>
RECURSIVE EscapedAll(_)
EscapedAll(s) == IF s = <<>> THEN <<>> ELSE Escaped(Head(s)) \o EscapedAll(Tail(s))
Quoted(s) == <<34>> \o EscapedAll(s) \o <<34>>
\* limbs as decimal digits: divide by ten repeatedly
DivTen(u) == LET a == u[4] \div 10  r4 == u[4] % 10
                 x3 == r4 * 65536 + u[3]  x2 == (x3 % 10) * 65536 + u[2]  x1 == (x2 % 10) * 65536 + u[1]
             IN  [q |-> <<x1 \div 10, x2 \div 10, x3 \div 10, a>>, r |-> x1 % 10]
RECURSIVE DecOf(_)
DecOf(u) == LET d == DivTen(u) IN (IF d.q = <<0, 0, 0, 0>> THEN <<>> ELSE DecOf(d.q)) \o <<48 + d.r>>
IntText(u) == IF u[4] > 32767 THEN <<45>> \o DecOf(C!Neg(u \o <<0>>)) ELSE DecOf(u)
\* n / 2^d in full: the fraction by repeated multiplication by ten
RECURSIVE FracDigits(_, _)
FracDigits(f, d) == IF f = 0 THEN <<>> ELSE <<48 + ((f * 10) \div (2 ^ d))>> \o FracDigits((f * 10) % (2 ^ d), d)
FloatText(v) == LET a == M!Abs1(v.n)  p == 2 ^ v.d
                IN  (IF v.n < 0 THEN <<45>> ELSE <<>>) \o Decimal(a \div p) \o <<46>> \o (IF v.d = 0 THEN <<48>> ELSE FracDigits(a % p, v.d))
RECURSIVE Writing(_)
ValueText(e) == CASE e.t = "null" -> S_null
                  [] e.t = "bool" -> IF e.v THEN S_true ELSE S_false
                  [] e.t = "int" -> IntText(e.v)
                  [] e.t = "float" -> FloatText(e.v)
                  [] e.t = "str" -> Quoted(e.v)
                  [] e.t = "color" -> <<99, 91>> \o Decimal(e.v[1]) \o <<44>> \o Decimal(e.v[2]) \o <<44>> \o Decimal(e.v[3]) \o <<44>> \o Decimal(e.v[4]) \o <<93>>
                  [] e.t = "vec" -> <<118, 91>> \o FloatText(e.v[1]) \o <<32>> \o FloatText(e.v[2]) \o <<32>> \o FloatText(e.v[3]) \o <<32>> \o FloatText(e.v[4]) \o <<93>>
                  [] OTHER -> <<123>> \o Writing(e.v) \o <<125>>
Writing(tr) == IF tr = <<>> THEN <<>> ELSE Quoted(tr[1].k) \o <<58>> \o ValueText(tr[1]) \o <<10>> \o Writing(Tail(tr))
\* the writer's text denotes the tree again (floats beyond 9 digits are not decided by the model)
Rewritten == Live => LET d == Denotes(<<>>, Writing(Tree)) IN d.st = "stop" /\ Match(d.tr, Tree)
==============================================================================
