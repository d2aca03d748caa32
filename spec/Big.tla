--------------------------------- MODULE Big ---------------------------------
(* Very long containers (tens of thousands of items: past the ranges of 8-   *)
(* and 16-bit counters).  The contents are a sequence of RUNS <<f, n>>, each *)
(* standing for the items with the identities f, f+1, ..., f+n-1; the value  *)
(* of an item is a function of its identity (Img).  A container shows its    *)
(* length, a check sum over all of its items (front to back and back to      *)
(* front, or by position and by key), and the items at chosen positions.     *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Mod, Base                       \* Img: identity itself (Mod = 0) or Base + identity % Mod
VARIABLE runs
Img(id) == IF Mod = 0 THEN id ELSE Base + (id % Mod)
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[2] + Total(Tail(rs))
Size == Total(runs)
Room == 9973
\* the sum of Img over the identities below x, modulo Room
Below(x) == IF Mod = 0 THEN (IF x % 2 = 0 THEN (((x \div 2) % Room) * ((x + Room - 1) % Room)) % Room ELSE ((x % Room) * (((x - 1) \div 2) % Room)) % Room)
            ELSE ((((x \div Mod) % Room) * ((Mod * (Mod - 1)) \div 2)) + (((x % Mod) * ((x % Mod) - 1)) \div 2) + ((Base * (x % Room)) % Room)) % Room
RECURSIVE Sum(_)
Sum(rs) == IF rs = <<>> THEN 0 ELSE (Below(Head(rs)[1] + Head(rs)[2]) + Room - Below(Head(rs)[1]) + Sum(Tail(rs))) % Room
\* identity at position p (from 0)
RECURSIVE IdAt(_, _)
IdAt(rs, p) == IF p < Head(rs)[2] THEN Head(rs)[1] + p ELSE IdAt(Tail(rs), p - Head(rs)[2])
\* the first n items, and what is left without them
RECURSIVE FirstOf(_, _), Without(_, _)
FirstOf(rs, n) == IF n = 0 \/ rs = <<>> THEN <<>> ELSE IF Head(rs)[2] <= n THEN <<Head(rs)>> \o FirstOf(Tail(rs), n - Head(rs)[2]) ELSE <<<<Head(rs)[1], n>>>>
Without(rs, n) == IF n = 0 \/ rs = <<>> THEN rs ELSE IF Head(rs)[2] <= n THEN Without(Tail(rs), n - Head(rs)[2]) ELSE <<<<Head(rs)[1] + n, Head(rs)[2] - n>>>> \o Tail(rs)
\* position of an identity, -1 if there is none
RECURSIVE Where(_, _, _)
Where(rs, id, at) == IF rs = <<>> THEN -1 ELSE IF id >= Head(rs)[1] /\ id < Head(rs)[1] + Head(rs)[2] THEN at + id - Head(rs)[1] ELSE Where(Tail(rs), id, at + Head(rs)[2])

Run(f, n) == IF n = 0 THEN <<>> ELSE <<<<f, n>>>>
\* runs that continue each other become one
Join(a, b) == IF a = <<>> \/ b = <<>> THEN a \o b
              ELSE IF a[Len(a)][1] + a[Len(a)][2] = b[1][1] THEN SubSeq(a, 1, Len(a) - 1) \o <<<<a[Len(a)][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
              ELSE a \o b
BigInit == runs = <<>>
Push(f, n) == runs' = Join(runs, Run(f, n))
Front(f, n) == runs' = Join(Run(f, n), runs)
Del(p, n) == p + n <= Size /\ runs' = FirstOf(runs, p) \o Without(runs, p + n)
Pop(n) == n <= Size /\ runs' = FirstOf(runs, Size - n)
PopF(n) == n <= Size /\ runs' = Without(runs, n)
Set(p, id) == p < Size /\ runs' = FirstOf(runs, p) \o Run(id, 1) \o Without(runs, p + 1)
Double == runs' = runs \o runs
Same == UNCHANGED runs
Empty == runs' = <<>>
Find(id, r) == r = Where(runs, id, 0) /\ Same
==============================================================================
