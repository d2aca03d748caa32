------------------------------- MODULE MCMath --------------------------------
(* Every expression of up to MaxLen symbols over a small alphabet, well formed *)
(* or not, with a variable and a function supplied by the caller.            *)
EXTENDS Math, MCBase
CONSTANTS MaxLen
vars == <<mt, op>>
Alphabet == {<<49>>, <<50>>, <<48, 46, 53>>, <<120>>, <<102, 32>>, <<43>>, <<45>>, <<42>>, <<47>>, <<94>>, <<40>>, <<41>>, <<91>>, <<93>>}
Do(w) == op' = w
X == <<120>>
F == <<102>>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Core == {<<50>>, <<120>>, <<102, 32>>, <<43>>, <<45>>, <<42>>, <<47>>, <<94>>, <<40>>, <<41>>}
Texts == (UNION {[1..n -> Alphabet] : n \in 0..MaxLen}) \union [1..(MaxLen + 1) -> Core]
MCInit == MathInit /\ op = <<"reset">>
Bound(w) == Binding(mt.env, w) # <<>>
MCNext == \/ ~Bound(X) /\ Bind(Var(X, NumV(3, 0))) /\ Do(<<"bind", X, "-", 3, 0>>)
          \/ Bound(X) /\ ~Bound(F) /\ Bind(Fun(F, "inc")) /\ Do(<<"bind", F, "inc", 0, 0>>)
          \/ Bound(F) /\ Unbind(F) /\ Do(<<"unbind", F>>)
          \/ Bound(F) /\ (\E t \in Texts : Do(<<"eval", "own", Flatten(t)>>)) /\ UNCHANGED mt
          \/ ~Bound(F) /\ (\E t \in UNION {[1..n -> Alphabet] : n \in 0..2}, m \in {"own", "none", "default"} : Do(<<"eval", m, Flatten(t)>>)) /\ UNCHANGED mt
MCSpec == MCInit /\ [][MCNext]_vars
View == mt
Emit == Edge(mt, mt')
-----------------------------------------------------------------------------
\* laws of the grammar and of the arithmetic
Env == <<Var(X, NumV(3, 0)), Fun(F, "inc")>>
V(s) == Evaluate(s, Env).v
Complete(s) == LET T == Tokens(s, 1) IN Evaluate(s, Env).i = Len(T) /\ ~Unclear(T)
Small == {Flatten(t) : t \in UNION {[1..n -> Alphabet] : n \in 0..3}}
\* grouping a complete expression changes nothing, with either bracket; nor do blanks around it
ASSUME \A s \in Small : (Complete(s) /\ V(s).k = "num") =>
    /\ V(<<40>> \o s \o <<41>>) = V(s) /\ V(<<91, 32>> \o s \o <<10, 93>>) = V(s)
    /\ V(s \o <<43, 49>>) = Sum(V(s), One) \/ \E k \in 1..Len(s) : s[k] = 102
    /\ V(<<45, 40>> \o s \o <<41>>) = Neg(V(s))
    /\ V(<<40>> \o s) = Err /\ V(<<40>> \o s \o <<93>>) = Err
\* what stands for nothing is an error by itself
ASSUME \A s \in {<<>>, <<32>>, <<41>>, <<50, 120>>, <<49, 46, 50, 46>>, <<121>>, <<40>>, <<40, 41>>, <<95>>} : V(s) = Err
\* associativity and precedence
ASSUME V(<<56, 45, 50, 45, 49>>) = NumV(5, 0) /\ V(<<56, 47, 50, 47, 50>>) = NumV(2, 0) /\ V(<<50, 94, 51, 94, 50>>) = NumV(64, 0)
ASSUME V(<<49, 43, 50, 42, 51, 94, 50>>) = NumV(19, 0) /\ V(<<45, 50, 94, 50>>) = NumV(4, 0) /\ V(<<43, 45, 50>>) = NumV(2, 0)
ASSUME V(<<102, 32, 50, 94, 50>>) = NumV(5, 0) /\ V(<<102, 40, 50, 41, 94, 50>>) = NumV(9, 0)
Nums == {NumV(0, 0)} \union {Norm(n, d) : n \in {-7, -3, -2, -1, 1, 2, 3, 6, 12}, d \in 0..2}
ASSUME \A a \in Nums, b \in Nums : /\ Sum(a, b) = Sum(b, a) /\ Product(a, b) = Product(b, a)
                                   /\ Sum(Sum(a, b), Neg(b)) = a
                                   /\ (IsNum(Quotient(a, b)) => Product(Quotient(a, b), b) = a)
                                   /\ (b.n # 0 => Quotient(Product(a, b), b) = a)
                                   /\ Absolute(Neg(a)) = Absolute(a)
ASSUME \A a \in Nums : LET g == Sum(a, Neg(Floor(a))) IN Floor(a).d = 0 /\ g.n >= 0 /\ Floor(g).n = 0
==============================================================================
