-------------------------------- MODULE Walk ---------------------------------
(* Walking a directory tree for files with a given extension.                *)
(* The tree: a function from paths (sequences of names, names being byte      *)
(* sequences) to entries; the root <<>> is implicit.  Links name another      *)
(* path; what lies behind a link to a directory may be visited or not, all    *)
(* else must be reported exactly once, wherever and however often links lead. *)
EXTENDS TextOps, FiniteSets
VARIABLES fs, wild               \* wild: top directories whose contents are not tracked
None == <<<<63>>>>
Kinds == {"dir", "file", "pipe", "link"}
\* a text cut at slashes, empty and "." components dropped
Split(s) ==
    LET P == <<0>> \o SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 47) \o <<Len(s) + 1>>
        C == [j \in 1..(Len(P) - 1) |-> SubSeq(s, P[j] + 1, P[j + 1] - 1)]
    IN  SelectSeq(C, LAMBDA c : c # <<>> /\ c # <<46>>)
\* text after the last period, nothing if there is none
Ext(name) == LET D == {i \in 1..Len(name) : name[i] = 46}
             IN  IF D = {} THEN <<>> ELSE SubSeq(name, (CHOOSE i \in D : \A j \in D : j <= i) + 1, Len(name))
Hidden(name) == name[1] = 46
Front(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
Has1(p) == p = <<>> \/ p \in DOMAIN fs
\* the real path of an entry after following links, <<path>> or <<>>
RECURSIVE Real(_, _)
Real(p, n) == IF ~Has1(p) \/ n = 0 THEN <<>> ELSE IF p = <<>> THEN <<p>> ELSE IF fs[p].k = "link" THEN Real(fs[p].to, n - 1) ELSE <<p>>
Target(p) == Real(p, 40)
KindOf(p) == LET r == Target(p) IN IF r = <<>> THEN "none" ELSE IF r[1] = <<>> THEN "dir" ELSE fs[r[1]].k
\* the real path of what the names rel lead to from directory p, through links of directories too
RECURSIVE Resolve(_, _)
Resolve(p, rel) == IF rel = <<>> THEN <<p>> ELSE LET t == Target(Append(p, rel[1])) IN IF t = <<>> THEN <<>> ELSE Resolve(t[1], Tail(rel))
Children(p) == {q \in DOMAIN fs : Len(q) = Len(p) + 1 /\ Front(q) = p}
\* files below directory p (as paths relative to it) that have to be reported
RECURSIVE Must(_, _, _)
Must(p, rel, ext) ==
    UNION {LET c == Last(q) IN
           CASE fs[q].k = "dir" -> IF Hidden(c) THEN {} ELSE Must(q, Append(rel, c), ext)
             [] fs[q].k \in {"file", "pipe"} -> IF Ext(c) = ext THEN {Append(rel, c)} ELSE {}
             [] fs[q].k = "link" -> IF Ext(c) = ext /\ KindOf(q) \in {"file", "pipe"} THEN {Append(rel, c)} ELSE {}
           : q \in Children(p)}
\* may the entry reached by the names rel below directory p be reported
RECURSIVE May(_, _, _)
May(p, rel, ext) ==
    IF rel = <<>> THEN FALSE
    ELSE IF p = <<>> /\ rel[1] \in wild THEN Len(rel) > 1 /\ Ext(Last(rel)) = ext
    ELSE LET q == Append(p, rel[1]) IN
         IF q \notin DOMAIN fs THEN FALSE
         ELSE IF Len(rel) = 1 THEN fs[q].k # "dir" /\ Ext(rel[1]) = ext
         ELSE IF Hidden(rel[1]) \/ KindOf(q) # "dir" THEN FALSE
         ELSE May(Target(q)[1], Tail(rel), ext)
RECURSIVE Size(_)
Size(rel) == IF rel = <<>> THEN 0 ELSE 1 + Len(rel[1]) + Size(Tail(rel))
DefaultExt == <<115, 111>>
\* found: the reported paths relative to dir (sequence); ret: could the directory be walked
WalkOK(dir, ext, cwd, lenient, ret, found) ==
    LET D == Split(dir)  F == {found[i] : i \in 1..Len(found)}
    IN  IF D # <<>> /\ D[1] \in wild THEN TRUE
        ELSE IF KindOf(D) # "dir" THEN ~ret /\ found = <<>>
        ELSE LET p == Target(D)[1]  M == Must(p, <<>>, ext)
             IN  /\ IF lenient THEN TRUE ELSE ret
                 /\ Cardinality(F) = Len(found)
                 /\ \A f \in F : May(p, f, ext)
                 /\ IF lenient THEN TRUE ELSE \A m \in M : (cwd + Len(dir) + Size(m) < 4080) => m \in F
Add(dir, name, e) == LET q == Append(Split(dir), name) IN
    fs' = [p \in DOMAIN fs \union {q} |-> IF p = q THEN e ELSE fs[p]] /\ UNCHANGED wild
\* all files but one are removed
Only(p) == [q \in {q \in DOMAIN fs : fs[q].k # "file" \/ q = p} |-> fs[q]]
NoFiles == [q \in {} |-> [k |-> "dir", to |-> <<>>]]
==============================================================================
