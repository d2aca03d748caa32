--------------------------------- MODULE Cfg ---------------------------------
(* Configurations: parsing gives the tree the text denotes, paths reach       *)
(* entries, writing gives text that denotes the tree again.  Trees in the    *)
(* state are as observed: numbers by their bits, strings by their bytes.     *)
EXTENDS CfgText
VARIABLE cf                      \* [files: sequence of [n, c], tree: <<>> or <<tree>>]
CfgInit == cf = [files |-> <<>>, tree |-> <<>>]
\* --- denoted value v of type t against the observed value o
RECURSIVE Match(_, _)
MatchValue(t, v, o) ==
    CASE t = "null" -> TRUE
      [] t = "bool" -> o = v
      [] t = "int" -> IF v = <<>> THEN TRUE ELSE o = v
      [] t = "float" -> M!Fits(v, o)
      [] t = "str" -> IF v = <<>> THEN TRUE ELSE o = v[1]
      [] t = "color" -> \A k \in 1..4 : v[k] < 0 \/ v[k] = o[k]
      [] t = "vec" -> \A k \in 1..4 : M!Fits(v[k], o[k])
      [] OTHER -> FALSE
Match(d, o) ==
    /\ Len(d) = Len(o)
    /\ \A j \in 1..Len(d) : /\ d[j].k = o[j].k
                            /\ d[j].t = o[j].t
                            /\ IF d[j].t = "map" THEN Match(d[j].v, o[j].v) ELSE MatchValue(d[j].t, d[j].v, o[j].v)
\* --- equality of observed trees
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A j \in 1..Len(a) : /\ a[j].k = b[j].k
                            /\ a[j].t = b[j].t
                            /\ IF a[j].t = "map" THEN SameTree(a[j].v, b[j].v) ELSE a[j].v = b[j].v
\* --- paths
RECURSIVE CompsFrom(_, _, _)
CompsFrom(p, i, cur) ==
    LET c == Chr(p, i) IN
    IF i >= Len(p) THEN <<cur>>
    ELSE IF c = 46 THEN <<cur>> \o CompsFrom(p, i + 1, <<>>)
    ELSE IF c = 92 /\ Chr(p, i + 1) = 46 THEN CompsFrom(p, i + 2, Append(cur, 46))
    ELSE CompsFrom(p, i + 1, Append(cur, c))
Comps(p) == CompsFrom(p, 0, <<>>)
OddPath(p) == \E k \in 1..Len(Comps(p)) : Comps(p)[k] = <<>>     \* an empty component: not specified
EntryOf(tr, k) == LET P == {j \in 1..Len(tr) : tr[j].k = k} IN IF P = {} THEN <<>> ELSE <<tr[CHOOSE j \in P : TRUE]>>
RECURSIVE Find(_, _)
Find(tr, cs) ==
    LET e == EntryOf(tr, cs[1]) IN
    IF e = <<>> \/ Len(cs) = 1 THEN e
    ELSE IF e[1].t = "map" THEN Find(e[1].v, Tail(cs)) ELSE <<>>
RECURSIVE Update(_, _, _)
Update(tr, cs, ne) ==
    [j \in 1..Len(tr) |-> IF tr[j].k # cs[1] THEN tr[j]
                          ELSE IF Len(cs) = 1 THEN ne
                          ELSE [k |-> tr[j].k, t |-> tr[j].t, v |-> Update(tr[j].v, Tail(cs), ne)]]
-----------------------------------------------------------------------------
Tree == cf.tree[1]
Live == cf.tree # <<>>
PutFile(n, c) == cf' = [cf EXCEPT !.files = <<[n |-> n, c |-> c]>> \o SelectSeq(@, LAMBDA f : f.n # n)]
Parse(s, o) ==
    LET d == Denotes(cf.files, s)
    IN  /\ (IF d.st = "free" THEN TRUE ELSE Match(d.tr, o))
        /\ cf' = [cf EXCEPT !.tree = <<o>>]
Load(n, ok, o) ==
    LET f == LoadFile([files |-> cf.files, name |-> <<>>, chain |-> <<>>], n)
        x == Content([files |-> cf.files], n)
    IN  /\ IF f.ok THEN (IF x[1] = <<>> THEN TRUE ELSE ok) /\ (ok => IF x[1] = <<>> THEN o = <<>> ELSE IF f.r.st = "free" THEN TRUE ELSE Match(f.r.tr, o)) ELSE ~ok
        /\ cf' = [cf EXCEPT !.tree = IF ok THEN <<o>> ELSE <<>>]
Release == cf' = [cf EXCEPT !.tree = <<>>]
\* g: the kinds of typed reads that gave something, in a fixed order; v: the value read
Reads(t) == IF t = "null" THEN <<>> ELSE IF t = "str" THEN <<"str", "cstr">> ELSE <<t>>
Get(p, typ, g, v) ==
    /\ Live
    /\ LET e == Find(Tree, Comps(p)) IN
       IF OddPath(p) THEN TRUE
       ELSE IF e = <<>> THEN typ = "none" /\ g = <<>>
       ELSE /\ typ = e[1].t
            /\ g = Reads(typ)
            /\ (typ = "map" => SameTree(e[1].v, v))
            /\ (typ \notin {"map", "null"} => v = e[1].v)
    /\ UNCHANGED cf
\* a write of value v (in denoted form) of type t; convert: the type may change
Set(p, t, v, convert, r, o) ==
    /\ Live
    /\ LET cs == Comps(p)
           e == Find(Tree, cs)
           f == Find(o, cs)
       IN  IF e = <<>> THEN ~r /\ SameTree(o, Tree)
           ELSE IF e[1].t # t /\ ~convert THEN ~r /\ SameTree(o, Tree)
           ELSE r /\ f # <<>> /\ (IF f = <<>> THEN FALSE ELSE f[1].t = t /\ f[1].k = e[1].k /\ MatchValue(t, v, f[1].v) /\ SameTree(o, Update(Tree, cs, f[1])))
    /\ cf' = [cf EXCEPT !.tree = <<o>>]
\* what can be written so that it denotes itself: generators are not, nor are numbers that are not finite
RECURSIVE Writable(_)
Writable(tr) == \A j \in 1..Len(tr) :
    /\ ~Has1(tr[j].k, S_enum) /\ ~Has1(tr[j].k, S_ENUM) /\ ~Has1(tr[j].k, S_math) /\ tr[j].k \notin {S_include, S_INCLUDE}
    /\ CASE tr[j].t = "map" -> Writable(tr[j].v)
         [] tr[j].t = "str" -> ~Has1(tr[j].v, S_math)
         [] tr[j].t = "float" -> tr[j].v.k # "nonfinite"
         [] tr[j].t = "vec" -> \A k \in 1..4 : tr[j].v[k].k # "nonfinite"
         [] OTHER -> TRUE
\* the text denotes the tree (texts longer than that take too long to evaluate)
Faithful(text) == IF Len(text) > 2500 THEN TRUE ELSE LET d == Denotes(<<>>, text) IN d.st # "free" /\ Match(d.tr, Tree)
\* text: the rendering; o: what the library reads from it
Render(text, o) ==
    /\ Live
    /\ (Writable(Tree) => SameTree(o, Tree) /\ Faithful(text))
    /\ UNCHANGED cf
\* writing into file n: c is the whole file afterwards, o what the library reads from it (if it reads)
Build(n, over, c, ok, o) ==
    /\ Live
    /\ LET x == Content([files |-> cf.files], n)
           old == IF over \/ x = <<>> THEN <<>> ELSE x[1]
           new == X!FixNewlines(Drop(c, Len(old)), TRUE)
       IN  /\ StartsWith(c, old)
           /\ (Writable(Tree) => Faithful(new))
           /\ (Writable(Tree) /\ old = <<>> /\ Tree # <<>> => ok /\ SameTree(o, Tree))
    /\ PutFile(n, c)
\* the same where only so many bytes can be written: success is reported for a complete file only
BuildLimited(n, room, r, c, ok, o) ==
    /\ Len(c) <= room
    /\ IF r THEN Build(n, TRUE, c, ok, o)
       ELSE Live /\ room < 100000 /\ PutFile(n, c)
\* evaluating a string entry as an expression
Calc(p, res) ==
    /\ Live
    /\ LET e == Find(Tree, Comps(p)) IN
       IF OddPath(p) THEN TRUE
       ELSE IF e = <<>> THEN res.k = "err"
       ELSE IF e[1].t # "str" THEN res.k = "err"
       ELSE M!Unclear(M!Tokens(e[1].v, 1)) \/ M!Fits(M!Evaluate(e[1].v, M!DefaultEnv).v, res)
    /\ UNCHANGED cf
RECURSIVE Distinct(_)
Distinct(tr) == /\ \A i, j \in 1..Len(tr) : tr[i].k = tr[j].k => i = j
                /\ \A j \in 1..Len(tr) : tr[j].t = "map" => Distinct(tr[j].v)
TypeOK == Live => Distinct(Tree)
==============================================================================
