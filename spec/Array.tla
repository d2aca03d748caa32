-------------------------------- MODULE Array --------------------------------
(* array/array.c: dynamic/static array.  Two objects, so that copy, add and  *)
(* the comparisons have a partner.                                           *)
(*   exists : the object has been created and not released                   *)
(*   live   : it owns storage (false after clear)                            *)
(*   cap    : capacity; its growth policy is left open except where callers  *)
(*            can rely on it (cap >= len, growing grows, exact fit is exact) *)
(*   items  : the items, oldest first                                        *)
(* Every action carries the result r the call returned.                      *)
EXTENDS SeqOps

VARIABLE arr

Objs == {1, 2}
None == [exists |-> FALSE, live |-> FALSE, cap |-> 0, items |-> <<>>]
Obj(c, s) == [exists |-> TRUE, live |-> TRUE, cap |-> c, items |-> s]

ArrayInit == arr = [o \in Objs |-> None]

Items(o) == arr[o].items
Cap(o)   == arr[o].cap
Live(o)  == arr[o].live
N(o)     == Len(arr[o].items)
Exists(o) == arr[o].exists

Put(o, s)  == arr' = [arr EXCEPT ![o].items = s]
Same       == arr' = arr

\* ---------------------------------------------------------- creation
New(o, n, c, r) ==                       \* c: resulting capacity
    /\ ~Exists(o)
    /\ IF r THEN /\ c > 0 /\ (~Huge(n) => c >= n)
                 /\ arr' = [arr EXCEPT ![o] = Obj(c, <<>>)]
            ELSE Same
FromBuffer(o, n, r) ==                   \* adopt a buffer of n items, the first half (1,2,.. modulo 256) in use
    /\ ~Exists(o)
    /\ IF r THEN arr' = [arr EXCEPT ![o] = Obj(n, [k \in 1..(n \div 2) |-> k % 256])]
            ELSE Same
Clear(o)   == /\ Exists(o)
              /\ arr' = [arr EXCEPT ![o] = [None EXCEPT !.exists = TRUE]]
Release(o) == arr' = [arr EXCEPT ![o] = None]
ResetAll   == arr' = [o \in Objs |-> None]

\* ---------------------------------------------------------- capacity
Grow(o, c, r) ==
    /\ Exists(o)
    /\ r = (c > Cap(o))
    /\ IF r THEN arr' = [arr EXCEPT ![o].live = TRUE, ![o].cap = c] ELSE Same
\* resizing keeps the items that still fit
Resize(o, n, c, r) ==
    /\ Exists(o)
    /\ r = (c # Cap(o))
    /\ IF r THEN /\ c > 0
                 /\ (Cap(o) > 0 => (~Huge(n) /\ c >= n))
                 /\ arr' = [arr EXCEPT ![o] = Obj(c, Take(Items(o), c))]
            ELSE Same
Shrink(o, exact, c, r) ==
    /\ Exists(o)
    /\ r = (c < Cap(o))
    /\ c >= N(o)
    /\ (r /\ exact) => c = N(o)
    /\ arr' = [arr EXCEPT ![o].cap = c]
Wipe(o) == /\ Exists(o) /\ Put(o, <<>>)

\* ---------------------------------------------------------- two arrays
\* an exactly fitting concatenation may be accepted or refused
Add(o, p, r) ==
    /\ Exists(o) /\ Exists(p)
    /\ IF r THEN /\ Live(o) /\ Live(p) /\ N(o) + N(p) <= Cap(o)
                 /\ Put(o, Items(o) \o Items(p))
            ELSE /\ ~(Live(o) /\ Live(p) /\ N(o) + N(p) < Cap(o))
                 /\ Same
Copy(o, p, r) ==
    /\ Exists(o) /\ Exists(p)
    /\ r = (o = p \/ (Live(o) /\ Live(p)))
    /\ IF r /\ o # p THEN Put(o, Take(Items(p), Cap(o))) ELSE Same

\* ---------------------------------------------------------- items
Insert(o, v, r) ==
    /\ Exists(o)
    /\ r = (Live(o) /\ N(o) < Cap(o))
    /\ IF r THEN Put(o, Append(Items(o), v)) ELSE Same
AppendItem(o, v, r) ==                   \* r: index of the new item or -1
    /\ Exists(o)
    /\ r = (IF Live(o) /\ N(o) < Cap(o) THEN N(o) ELSE -1)
    /\ IF r >= 0 THEN Put(o, Append(Items(o), v)) ELSE Same
Fill(o, v, r) ==
    /\ Exists(o)
    /\ r = Live(o)
    /\ IF r THEN Put(o, Repeat(v, Cap(o))) ELSE Same
Pop(o, v, r) ==
    /\ Exists(o)
    /\ r = (N(o) > 0)
    /\ IF r THEN v = At(Items(o), N(o) - 1) /\ Put(o, Take(Items(o), N(o) - 1)) ELSE Same
Peek(o, v, r) ==
    /\ Exists(o)
    /\ r = (N(o) > 0)
    /\ r => v = At(Items(o), N(o) - 1)
    /\ Same
Get(o, i, v, r) ==
    /\ Exists(o)
    /\ r = InRange(Items(o), i)
    /\ r => v = At(Items(o), i)
    /\ Same
Set(o, i, v, r) ==
    /\ Exists(o)
    /\ r = InRange(Items(o), i)
    /\ IF r THEN Put(o, [Items(o) EXCEPT ![i + 1] = v]) ELSE Same
Swap(o, r) ==                            \* reverses the order
    /\ Exists(o)
    /\ r = Live(o)
    /\ Put(o, Reverse(Items(o)))
ShiftUp(o, i, n, r) ==                   \* an amount of zero counts as one
    /\ Exists(o)
    /\ r = InRange(Items(o), i)
    /\ IF r THEN Put(o, RemoveRange(Items(o), i, IF n = 0 THEN 1 ELSE n)) ELSE Same
Count(o, v, r) ==
    /\ Exists(o) /\ r = CountOf(Items(o), v) /\ Same
IndexOf(o, v, i, r) ==
    /\ Exists(o) /\ r = IndexOfFrom(Items(o), v, i) /\ Same
DelIndex(o, i, r) ==
    /\ Exists(o)
    /\ r = InRange(Items(o), i)
    /\ IF r THEN Put(o, RemoveIdx(Items(o), i)) ELSE Same
\* deleting a range from the start of an empty array may report success
DelRange(o, i, n, r) ==
    /\ Exists(o)
    /\ \/ r = InRange(Items(o), i)
       \/ Live(o) /\ N(o) = 0 /\ i = 0
    /\ IF InRange(Items(o), i)
       THEN Put(o, RemoveRange(Items(o), i, IF n = 0 THEN 1 ELSE n)) ELSE Same
DelVal(o, v, r) ==
    /\ Exists(o)
    /\ r = (CountOf(Items(o), v) > 0)
    /\ IF r THEN Put(o, RemoveIdx(Items(o), IndexOfFrom(Items(o), v, 0))) ELSE Same

\* ---------------------------------------------------------- properties
TypeOK == \A o \in Objs :
    /\ N(o) <= Cap(o)
    /\ ~Live(o) => N(o) = 0 /\ Cap(o) = 0
    /\ (Live(o) => Exists(o))
\* one call changes at most one of the two arrays
OneAtATime == [][ \/ \E o \in Objs : arr'[o] = arr[o]
                  \/ ResetAll ]_arr
==============================================================================
