------------------------------ MODULE MCCfgPath ------------------------------
(* All histories of reads and writes by path over trees in which names are   *)
(* used again at several depths and contain dots.                            *)
EXTENDS Cfg, MCBase
vars == <<cf, op>>
Do(w) == op' = w
E(k, t, v) == [k |-> k, t |-> t, v |-> v]
A == <<97>>  B == <<98>>  AdotB == <<97, 46, 98>>
I(n) == <<n, 0, 0, 0>>
\* "a" { "a" { "b": 1 }  "b": true }  "b": "a"  "a.b": { "b": null }
Text1 == <<34,97,34, 123, 34,97,34, 123, 34,98,34, 58, 49, 125, 34,98,34, 58, 116,114,117,101, 125, 34,98,34, 58, 34,97,34, 34,97,46,98,34, 123, 34,98,34, 58, 110,117,108,108, 125>>
\* "a.b": 2  "b": { "a.b": c[1 2 3 4]  "a": { "a.b": 1 } }  "a": null
Text2 == <<34,97,46,98,34, 58, 50, 32, 34,98,34, 58, 123, 34,97,46,98,34, 58, 99,91,49,32,50,32,51,32,52,93, 34,97,34, 123, 34,97,46,98,34, 58, 49, 125, 125, 34,97,34, 58, 110,117,108,108>>
\* the tree denoted, in the form in which trees are observed
RECURSIVE Concrete(_)
Concrete(d) == [j \in 1..Len(d) |-> IF d[j].t = "map" THEN E(d[j].k, "map", Concrete(d[j].v))
                                    ELSE IF d[j].t = "str" THEN E(d[j].k, "str", d[j].v[1]) ELSE d[j]]
TreeOf(s) == Concrete(Denotes(<<>>, s).tr)
Paths == {A, B, A \o <<46>> \o A, A \o <<46>> \o B, B \o <<46>> \o A, A \o <<46, 97, 46>> \o B, <<97, 92, 46, 98>>, <<97, 92, 46, 98, 46>> \o B,
          <<98, 46, 97, 92, 46, 98>>, <<98, 46, 97, 46, 97, 92, 46, 98>>, <<99>>, A \o <<46, 99>>}
DoSet(p, t, v, ne, words) ==
    /\ Live
    /\ LET cs == Comps(p)  e == Find(Tree, cs)
       IN  \E conv \in {TRUE, FALSE} :
           /\ Do(<<"set", p, t, IF conv THEN 1 ELSE 0>> \o words)
           /\ IF e = <<>> THEN UNCHANGED cf
              ELSE IF e[1].t # t /\ t # "null" /\ ~conv THEN UNCHANGED cf
              ELSE LET u == Update(Tree, cs, E(e[1].k, t, v)) IN Set(p, t, ne, t = "null" \/ conv, TRUE, u)
MCInit == cf = [files |-> <<>>, tree |-> <<>>] /\ op = <<"reset">>
MCNext == \/ ~Live /\ (\E s \in {Text1, Text2} : Parse(s, TreeOf(s)) /\ Do(<<"parse", s>>))
          \/ \E p \in Paths : \/ DoSet(p, "int", I(7), I(7), <<7>>)
                              \/ DoSet(p, "null", 0, 0, <<>>)
                              \/ DoSet(p, "str", B, Known(B), <<B>>)
                              \/ Live /\ Do(<<"get", p>>) /\ UNCHANGED cf
          \/ Live /\ Release /\ Do(<<"free">>)
MCSpec == MCInit /\ [][MCNext]_vars
View == cf.tree
Emit == Edge(cf.tree, cf'.tree)
-----------------------------------------------------------------------------
\* laws of paths: a write changes what the path reads and nothing any unrelated path reads
Related(p, q) == LET a == Comps(p)  b == Comps(q) IN StartsWith(a, b) \/ StartsWith(b, a)
PathLaws == Live => \A p \in Paths : LET e == Find(Tree, Comps(p)) IN
    (e # <<>> => LET u == Update(Tree, Comps(p), E(e[1].k, "int", I(9)))
                 IN  /\ Find(u, Comps(p)) = <<E(Comps(p)[Len(Comps(p))], "int", I(9))>>
                     /\ \A q \in Paths : ~Related(p, q) => Find(u, Comps(q)) = Find(Tree, Comps(q))
                     /\ Distinct(u))
==============================================================================
