--------------------------------- MODULE Map ---------------------------------
(* map/map.c: ordered hash table.  Abstractly a sequence of entries [k, v]   *)
(* with distinct keys, in insertion order.  Hashes, seed, buckets and        *)
(* capacity do not occur: no result may depend on them.                      *)
EXTENDS SeqOps
VARIABLES exists, ent
vars == <<exists, ent>>
MapInit == exists = FALSE /\ ent = <<>>
Same == UNCHANGED vars
Entry(k, v) == [k |-> k, v |-> v]
\* position of a key / of the first entry with a value, -1 if absent
Pos(k)    == FirstIdx(ent, LAMBDA e : e.k = k)
PosVal(v) == FirstIdx(ent, LAMBDA e : e.v = v)
HasKey(k) == Pos(k) >= 0
Keep == UNCHANGED exists

New(r)  == ~exists /\ exists' = r /\ ent' = <<>>
Release == exists' = FALSE /\ ent' = <<>>
Clear   == exists /\ Keep /\ ent' = <<>>
\* rehashing to any size never changes the entries
Rehash(n, r) == exists /\ Same /\ (r => (Huge(n) \/ n >= Len(ent)))
\* r = FALSE: refused without effect (always for a present key)
Insert(k, v, r) ==
    /\ exists /\ Keep
    /\ r => ~HasKey(k)
    /\ ent' = IF r THEN Append(ent, Entry(k, v)) ELSE ent
KeySet(k, v, r) ==
    /\ exists /\ Keep
    /\ ent' = IF ~r THEN ent
              ELSE IF HasKey(k) THEN [ent EXCEPT ![Pos(k) + 1].v = v]
              ELSE Append(ent, Entry(k, v))
IdxSet(i, v, r) ==
    /\ exists /\ Keep
    /\ r => InRange(ent, i)
    /\ ent' = IF r THEN [ent EXCEPT ![i + 1].v = v] ELSE ent
Get(k, r, i, v) ==
    /\ exists /\ Same
    /\ r = HasKey(k)
    /\ i = Pos(k)
    /\ r => v = ent[i + 1].v
FindVal(v, i, r, k) ==
    /\ exists /\ Same
    /\ i = PosVal(v)
    /\ r = (i >= 0)
    /\ r => k = ent[i + 1].k
KeyRm(k, r) ==
    /\ exists /\ Keep
    /\ r = HasKey(k)
    /\ ent' = IF r THEN RemoveIdx(ent, Pos(k)) ELSE ent
IdxRm(i, r) ==
    /\ exists /\ Keep
    /\ r = InRange(ent, i)
    /\ ent' = IF r THEN RemoveIdx(ent, i) ELSE ent

\* ---------------------------------------------------------- properties
DistinctKeys == \A i, j \in 1..Len(ent) : ent[i].k = ent[j].k => i = j
OnlyIfExists == ~exists => ent = <<>>
\* a step never reorders the entries that stay
Order == [][\A a, b \in 1..Len(ent) : a < b =>
              LET p(x) == IF \E c \in 1..Len(ent') : ent'[c].k = ent[x].k THEN CHOOSE c \in 1..Len(ent') : ent'[c].k = ent[x].k ELSE 0
              IN  (p(a) # 0 /\ p(b) # 0) => p(a) < p(b)]_vars
==============================================================================
