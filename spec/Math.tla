-------------------------------- MODULE Math ---------------------------------
(* The expression evaluator: names supplied by the caller are the only state; *)
(* evaluating changes nothing.                                               *)
EXTENDS MathVal
VARIABLE mt                      \* [env: sequence of names the caller supplies]
MathInit == mt = [env |-> <<>>]
\* asked: what the caller's function was asked, as recorded
AskedRight(c, asked) ==
    /\ Len(asked) = Len(c)
    /\ \A k \in 1..Len(c) : /\ asked[k].name = c[k][1]
                            /\ asked[k].call = (Len(c[k]) = 2)
                            /\ (Len(c[k]) = 2 => Fits(c[k][2], asked[k].arg))
Eval(s, mode, res, asked) ==
    /\ IF Len(s) > 900 THEN TRUE                 \* nesting may be refused from 1000 levels on
       ELSE IF Unclear(Tokens(s, 1)) THEN TRUE
       ELSE LET r == Evaluate(s, CASE mode = "own" -> mt.env [] mode = "default" -> DefaultEnv [] OTHER -> <<>>)
            IN  Fits(r.v, res) /\ (mode = "own" => AskedRight(r.c, asked))
    /\ UNCHANGED mt
\* a sum of any length: every further term adds the same amount
Series(s, u, n, mode, res) ==
    /\ LET env == CASE mode = "own" -> mt.env [] mode = "default" -> DefaultEnv [] OTHER -> <<>>
           Value(x) == IF Unclear(Tokens(x, 1)) THEN Any0 ELSE Evaluate(x, env).v
           a == Value(s)  b == Value(s \o u)  c == Value(s \o u \o u)
           d == Sum(b, Neg(a))
       IN  (u[1] \in {43, 45} /\ IsNum(d) /\ IsNum(Sum(c, Neg(b))) /\ Sum(c, Neg(b)) = d)
               => Fits(Sum(a, Product(NumV(n, 0), d)), res)
    /\ UNCHANGED mt
Without(w) == SelectSeq(mt.env, LAMBDA b : b.name # w)
Bind(b) == mt' = [env |-> <<b>> \o Without(b.name)]
Unbind(w) == mt' = [env |-> Without(w)]
TypeOK == \A k \in 1..Len(mt.env) : mt.env[k].v.k \in {"num", "err"}
==============================================================================
