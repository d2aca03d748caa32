-------------------------------- MODULE MathVal -------------------------------
(* Expressions: tokens, the documented grammar, and their value.             *)
(*   Expr  = Mul (('+' | '-') Mul)*        Mul  = Pow (('*' | '/') Pow)*      *)
(*   Pow   = Unary ('^' Unary)*            Unary = ('-' | '+')* Factor        *)
(*   Factor = number | name | function argument | '(' Expr ')' | '[' Expr ']' *)
(* all operators associate to the left.  Numbers are exact dyadic rationals   *)
(* n / 2^d; a result that is not one of those (or is too large for the        *)
(* bounds) is "any"; the value of a factor that is not there is "err".        *)
EXTENDS TextOps, Integers
NumV(n, d) == [k |-> "num", n |-> n, d |-> d]
Any0 == [k |-> "any", n |-> 0, d |-> 0]
Err  == [k |-> "err", n |-> 0, d |-> 0]
Irr(m) == [k |-> "irr", n |-> m, d |-> 0]       \* known to six decimals
Big  == 1000000000
Abs1(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Norm(_, _)
Norm(n, d) == IF n = 0 THEN NumV(0, 0) ELSE IF d > 0 /\ n % 2 = 0 THEN Norm(n \div 2, d - 1)
              ELSE IF Abs1(n) >= Big \/ d > 20 THEN Any0 ELSE NumV(n, d)
IsNum(v) == v.k = "num"
Lift(n, d) == IF Abs1(n) < Big \div (2 ^ d) THEN n * 2 ^ d ELSE Big       \* Big: does not fit
Sum(a, b) ==
    IF ~(IsNum(a) /\ IsNum(b)) THEN Any0
    ELSE LET d == Max2(a.d, b.d)  x == Lift(a.n, d - a.d)  y == Lift(b.n, d - b.d)
         IN  IF x = Big \/ y = Big THEN Any0 ELSE Norm(x + y, d)
Neg(a) == IF IsNum(a) THEN NumV(-a.n, a.d) ELSE Any0
Product(a, b) ==
    IF ~(IsNum(a) /\ IsNum(b)) THEN Any0
    ELSE IF a.n = 0 \/ b.n = 0 THEN NumV(0, 0)
    ELSE IF Abs1(a.n) >= Big \div Abs1(b.n) THEN Any0 ELSE Norm(a.n * b.n, a.d + b.d)
RECURSIVE Twos(_)
Twos(n) == IF n % 2 = 0 THEN 1 + Twos(n \div 2) ELSE 0
OddPart(n) == n \div (2 ^ Twos(n))
Quotient(a, b) ==
    IF ~(IsNum(a) /\ IsNum(b)) \/ b.n = 0 THEN Any0
    ELSE IF a.n = 0 THEN NumV(0, 0)
    ELSE LET j == Twos(Abs1(b.n))  o == OddPart(Abs1(b.n)) * Sign(b.n)  e == b.d - a.d - j
         IN  IF Abs1(a.n) % Abs1(o) # 0 THEN Any0
             ELSE LET q == Sign(a.n) * Sign(o) * (Abs1(a.n) \div Abs1(o))
                  IN  IF e <= 0 THEN Norm(q, -e) ELSE IF e > 29 \/ Lift(q, e) = Big THEN Any0 ELSE NumV(Lift(q, e), 0)
RECURSIVE Times(_, _)
Times(a, k) == IF k = 0 THEN NumV(1, 0) ELSE Product(Times(a, k - 1), a)
Power(a, b) ==
    IF ~(IsNum(a) /\ IsNum(b)) THEN Any0
    ELSE IF b.d > 0 \/ Abs1(b.n) > 40 THEN Any0
    ELSE IF b.n >= 0 THEN Times(a, b.n)
    ELSE IF a.n = 0 \/ OddPart(Abs1(a.n)) # 1 THEN Any0 ELSE Times(Quotient(NumV(1, 0), a), -b.n)
Absolute(a) == IF IsNum(a) THEN NumV(Abs1(a.n), a.d) ELSE Any0
Floor(a) == IF ~IsNum(a) THEN Any0 ELSE LET p == 2 ^ a.d IN NumV((a.n - (a.n % p)) \div p, 0)
Half == NumV(1, 1)
One == NumV(1, 0)
Ceil(a) == Neg(Floor(Neg(a)))
\* halves are rounded away from zero
Round(a) == IF ~IsNum(a) THEN Any0 ELSE IF a.n < 0 THEN Neg(Floor(Sum(Neg(a), Half))) ELSE Floor(Sum(a, Half))
-----------------------------------------------------------------------------
(* tokens *)
IsAlnum(c) == IsDigit(c) \/ IsLower(c) \/ IsUpper(c)
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ (IF IsAlnum(s[i]) THEN TRUE ELSE FALSE) THEN WordEnd(s, i + 1) ELSE i
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ (IF IsAlnum(s[i]) THEN TRUE ELSE s[i] = 46) THEN NumEnd(s, i + 1) ELSE i
RECURSIVE StripLead(_)
StripLead(s) == IF s # <<>> /\ s[1] = 48 THEN StripLead(Tail(s)) ELSE s
RECURSIVE StripTail(_)
StripTail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripTail(SubSeq(s, 1, Len(s) - 1)) ELSE s
NumberValue(w) ==
    LET p == FindFrom(w, <<46>>, 0)
        int == IF p < 0 THEN w ELSE SubSeq(w, 1, p)
        frac == IF p < 0 THEN <<>> ELSE StripTail(SubSeq(w, p + 2, Len(w)))
        all == StripLead(int \o frac)  f == Len(frac)
    IN  IF Len(all) > 9 \/ f > 9 THEN Any0
        ELSE LET n == DigitsValue(all, 0) IN IF n % (5 ^ f) # 0 THEN Any0 ELSE Norm(n \div (5 ^ f), f)
\* kinds: the character for brackets and operators, otherwise
TEnd == 0
TNum == 1
TName == 2
TOdd == 3
Tok(t, v, w) == [t |-> t, v |-> v, w |-> w]
MaxName == 63
\* the tokens of s from position i; ends with TEnd or with the first thing that is no token
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
    IF i > Len(s) THEN <<Tok(TEnd, Err, <<>>)>>
    ELSE LET c == s[i] IN
         IF c \in {32, 9, 10, 13} THEN Tokens(s, i + 1)
         ELSE IF c = 46 \/ IsDigit(c) THEN
              LET e == NumEnd(s, i)  w == SubSeq(s, i, e - 1)
              IN  IF w = <<46>> THEN <<Tok(TOdd, Err, <<>>)>>
                  ELSE IF (\E k \in 1..Len(w) : ~IsDigit(w[k]) /\ w[k] # 46) \/ CountOf(w, 46) > 1 THEN <<Tok(TEnd, Err, <<>>)>>
                  ELSE <<Tok(TNum, NumberValue(w), <<>>)>> \o Tokens(s, e)
         ELSE IF c \in {40, 41, 42, 43, 45, 47, 91, 93, 94} THEN <<Tok(c, Err, <<>>)>> \o Tokens(s, i + 1)
         ELSE IF IsAlnum(c) THEN
              LET e == WordEnd(s, i) IN IF e - i > MaxName THEN <<Tok(TEnd, Err, <<>>)>> ELSE <<Tok(TName, Err, SubSeq(s, i, e - 1))>> \o Tokens(s, e)
         ELSE <<Tok(TEnd, Err, <<>>)>>
Unclear(T) == T[Len(T)].t = TOdd                \* a lone decimal point: not specified
-----------------------------------------------------------------------------
(* names.  A binding is [name, f: "" for a variable or the function's name, v] *)
Binding(env, w) == LET P == {k \in 1..Len(env) : env[k].name = w} IN IF P = {} THEN <<>> ELSE env[CHOOSE k \in P : TRUE]
Apply(f, a) ==
    CASE f = "dbl"  -> Product(NumV(2, 0), a)
      [] f = "half" -> Product(Half, a)
      [] f = "inc"  -> Sum(a, One)
      [] f = "sq"   -> Product(a, a)
      [] f = "id"   -> a
      [] f = "floor" -> Floor(a)
      [] f = "ceil"  -> Ceil(a)
      [] f = "round" -> Round(a)
      [] f = "fraction" -> Sum(a, Neg(Floor(a)))
      [] f \in {"sin", "tan", "arcsin", "arctan", "radians", "degrees"} -> IF a = NumV(0, 0) THEN a ELSE Any0
      [] f = "cos" -> IF a = NumV(0, 0) THEN One ELSE Any0
      [] f \in {"ln", "arccos"} -> IF a = One THEN NumV(0, 0) ELSE Any0
      [] f = "log" -> IF a = One THEN NumV(0, 0) ELSE IF a = NumV(10, 0) THEN One ELSE IF a = NumV(1000, 0) THEN NumV(3, 0) ELSE Any0
      [] OTHER -> Any0
Var(w, v) == [name |-> w, f |-> "", v |-> v]
Fun(w, f) == [name |-> w, f |-> f, v |-> Err]
DefaultEnv == <<Var(<<101>>, Irr(2718281)), Var(<<112, 105>>, Irr(3141592)),
    Fun(<<115, 105, 110>>, "sin"), Fun(<<99, 111, 115>>, "cos"), Fun(<<116, 97, 110>>, "tan"), Fun(<<97, 114, 99, 115, 105, 110>>, "arcsin"),
    Fun(<<97, 114, 99, 99, 111, 115>>, "arccos"), Fun(<<97, 114, 99, 116, 97, 110>>, "arctan"), Fun(<<108, 110>>, "ln"), Fun(<<108, 111, 103>>, "log"),
    Fun(<<102, 108, 111, 111, 114>>, "floor"), Fun(<<99, 101, 105, 108>>, "ceil"), Fun(<<114, 111, 117, 110, 100>>, "round"),
    Fun(<<102, 114, 97, 99, 116, 105, 111, 110>>, "fraction"), Fun(<<114, 97, 100, 105, 97, 110, 115>>, "radians"), Fun(<<100, 101, 103, 114, 101, 101, 115>>, "degrees")>>
-----------------------------------------------------------------------------
(* parsing: a result is the value, the next token and the questions asked of  *)
(* the caller, in order: <<name>> for a name looked up, <<name, argument>>    *)
(* for a function called                                                     *)
R(v, i, c) == [v |-> v, i |-> i, c |-> c]
RECURSIVE PExpr(_, _, _)
RECURSIVE PExprRest(_, _, _)
RECURSIVE PMul(_, _, _)
RECURSIVE PMulRest(_, _, _)
RECURSIVE PPow(_, _, _)
RECURSIVE PPowRest(_, _, _)
RECURSIVE PUnary(_, _, _)
PFactor(T, env, i) ==
    LET t == T[i].t IN
    IF t = TNum THEN R(T[i].v, i + 1, <<>>)
    ELSE IF t = TName THEN
         LET w == T[i].w  b == Binding(env, w)  ask == << <<w>> >> IN
         IF b = <<>> THEN R(Err, i + 1, ask)
         ELSE IF b.f = "" THEN R(b.v, i + 1, ask)
         ELSE LET a == IF T[i + 1].t \in {40, 91} THEN PUnary(T, env, i + 1) ELSE PPow(T, env, i + 1)
              IN  R(Apply(b.f, a.v), a.i, ask \o a.c \o << <<w, a.v>> >>)
    ELSE IF t \in {40, 91} THEN
         LET a == PExpr(T, env, i + 1)
         IN  IF T[a.i].t = (IF t = 40 THEN 41 ELSE 93) THEN R(a.v, a.i + 1, a.c) ELSE R(Err, a.i, a.c)
    ELSE R(Err, i, <<>>)
PUnary(T, env, i) ==
    IF T[i].t = 45 THEN LET a == PUnary(T, env, i + 1) IN R(Neg(a.v), a.i, a.c)
    ELSE IF T[i].t = 43 THEN LET a == PUnary(T, env, i + 1) IN R(Absolute(a.v), a.i, a.c)
    ELSE PFactor(T, env, i)
PPow(T, env, i) == PPowRest(T, env, PUnary(T, env, i))
PPowRest(T, env, l) ==
    IF T[l.i].t # 94 THEN l ELSE LET r == PUnary(T, env, l.i + 1) IN PPowRest(T, env, R(Power(l.v, r.v), r.i, l.c \o r.c))
PMul(T, env, i) == PMulRest(T, env, PPow(T, env, i))
PMulRest(T, env, l) ==
    IF T[l.i].t \notin {42, 47} THEN l
    ELSE LET r == PPow(T, env, l.i + 1)
         IN  PMulRest(T, env, R(IF T[l.i].t = 42 THEN Product(l.v, r.v) ELSE Quotient(l.v, r.v), r.i, l.c \o r.c))
PExpr(T, env, i) == PExprRest(T, env, PMul(T, env, i))
PExprRest(T, env, l) ==
    IF T[l.i].t \notin {43, 45} THEN l
    ELSE LET r == PMul(T, env, l.i + 1)
         IN  PExprRest(T, env, R(IF T[l.i].t = 43 THEN Sum(l.v, r.v) ELSE Sum(l.v, Neg(r.v)), r.i, l.c \o r.c))
\* what follows a complete expression is ignored
Evaluate(s, env) == LET T == Tokens(s, 1) IN PExpr(T, env, 1)
-----------------------------------------------------------------------------
Fits(v, o) == CASE v.k = "num" -> o.k = "num" /\ o.n = v.n /\ o.d = v.d
                [] v.k = "err" -> o.k = "err"
                [] v.k = "irr" -> o.micro = v.n
                [] OTHER -> TRUE
==============================================================================
