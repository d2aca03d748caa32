-------------------------------- MODULE MCCfg --------------------------------
(* Every configuration text of up to MaxLen symbols, well formed or not, with *)
(* a file that can be included; and the laws of what texts denote.           *)
EXTENDS Cfg, MCBase
CONSTANTS MaxLen, CoreLen
vars == <<cf, op>>
Do(w) == op' = w
Qa == <<34, 97, 34>>                              \* "a"
Qb == <<39, 98, 39, 58>>                          \* 'b':
Qe == <<34, 60, 101, 110, 117, 109, 62, 34>>      \* "<enum>"
QE == <<34, 60, 69, 78, 85, 77, 62, 34>>          \* "<ENUM>"
Qm == <<34, 60, 109, 97, 116, 104, 32, 105, 111, 116, 97, 43, 49, 62, 107, 34>>    \* "<math iota+1>k"
Qi == <<34, 60, 105, 110, 99, 108, 117, 100, 101, 62, 34>>                          \* "<include>"
One1 == <<49, 32>>
Frac == <<45, 50, 46, 53, 44>>                    \* -2.5,
Opens == <<123>>
Closes == <<125>>
Iota == <<105, 111, 116, 97, 32>>
IOTA == <<73, 79, 84, 65, 32>>
True1 == <<116, 114, 117, 101>>
Null1 == <<110, 117, 108, 108>>
Color == <<99, 91, 49, 32, 50, 93>>               \* c[1 2]
Vec == <<118, 91, 46, 53, 44>>                    \* v[.5,
CloseB == <<93>>
Note == <<47, 42, 123, 42, 47>>                   \* /*{*/
Hash == <<35, 34, 10>>                            \* #"
Quote == <<34>>
File == <<60, 70, 73, 76, 69, 62>>                \* <FILE>
Alphabet == {Qa, Qb, Qe, QE, Qm, Qi, One1, Frac, Opens, Closes, Iota, IOTA, True1, Null1, Color, Vec, CloseB, Note, Hash, Quote, File}
Core == {Qa, Qb, One1, Opens, Closes, Qe, Iota}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Texts == (UNION {[1..n -> Alphabet] : n \in 0..MaxLen}) \union (UNION {[1..n -> Core] : n \in (MaxLen + 1)..CoreLen})
TheFiles == << [n |-> <<97>>, c |-> Qb \o One1 \o Qi \o Qa \o Qe \o Iota] >>      \* file a includes itself, to no effect
MCInit == cf = [files |-> <<>>, tree |-> <<>>] /\ op = <<"reset">>
MCNext == \/ cf.files = <<>> /\ PutFile(TheFiles[1].n, TheFiles[1].c) /\ Do(<<"file", TheFiles[1].n, TheFiles[1].c>>)
          \/ cf.files # <<>> /\ (\E t \in Texts : Do(<<"parse", Flatten(t)>>)) /\ UNCHANGED cf
          \/ cf.files # <<>> /\ (\E n \in {<<97>>, <<122>>, <<>>} : Do(<<"load", n>>)) /\ UNCHANGED cf
MCSpec == MCInit /\ [][MCNext]_vars
View == cf.files
Emit == Edge(cf.files, cf'.files)
-----------------------------------------------------------------------------
\* laws
D(s) == Denotes(TheFiles, s)
RECURSIVE Within(_, _)
\* a is what is read of b when reading stops earlier: the same entries, the last of them possibly a shorter section
Within(a, b) == /\ Len(a) <= Len(b)
                /\ \A j \in 1..Len(a) : IF j < Len(a) THEN a[j] = b[j]
                                        ELSE a[j] = b[j] \/ (a[j].k = b[j].k /\ a[j].t = "map" /\ b[j].t = "map" /\ Within(a[j].v, b[j].v))
Small == UNION {[1..n -> Alphabet] : n \in 0..2}
Medium == UNION {[1..n -> Core] : n \in 0..4}
ASSUME \A w \in Small \union Medium :
    LET s == Flatten(w)  d == D(s)
    IN  /\ d.st \in {"stop", "free"}
        \* keys are distinct in every section
        /\ Distinct(d.tr)
        \* whatever follows, what was read stays: reading the first symbols gives a part of it
        /\ (w # <<>> => LET e == D(Flatten(SubSeq(w, 1, Len(w) - 1))) IN e.st = "stop" /\ d.st = "stop" => (Within(e.tr, d.tr) \/ Within(d.tr, e.tr)))
        \* blanks, delimiters and comments around symbols mean nothing
        /\ (d.st = "stop" /\ (\A k \in 1..Len(w) : w[k] # Quote) => \A sep \in {<<32>>, <<10, 9>>, <<44, 58>>, Note, Hash} :
             LET e == D(Flatten([k \in 1..Len(w) |-> sep \o w[k]]) \o sep) IN e.st = "stop" /\ e.tr = d.tr)
ASSUME D(Qa \o Opens \o Qb \o Iota \o Qe \o Iota \o Closes \o Qb \o Iota \o Qe \o IOTA).tr =
       << [k |-> <<97>>, t |-> "map", v |-> <<[k |-> <<98>>, t |-> "int", v |-> <<0, 0, 0, 0>>], [k |-> <<48>>, t |-> "int", v |-> <<1, 0, 0, 0>>]>>],
          [k |-> <<98>>, t |-> "int", v |-> <<0, 0, 0, 0>>], [k |-> <<48>>, t |-> "int", v |-> <<0, 0, 0, 0>>] >>
ASSUME LET f == LoadFile([files |-> TheFiles, name |-> <<>>, chain |-> <<>>], <<97>>) IN f.ok /\ Len(f.r.tr) = 2
==============================================================================
