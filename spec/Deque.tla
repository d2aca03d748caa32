-------------------------------- MODULE Deque --------------------------------
(* deque/deque.c: a double-ended sequence.  Items are [h, v]: the opaque      *)
(* handle the call returned (valid until the item is removed) and the value. *)
EXTENDS SeqOps
VARIABLES exists, items
vars == <<exists, items>>
DqInit == exists = FALSE /\ items = <<>>
Same == UNCHANGED vars
Handles == {items[k].h : k \in 1..Len(items)}
Item(h, v) == [h |-> h, v |-> v]

New(r)   == /\ ~exists /\ exists' = r /\ items' = <<>>
Release  == exists' = FALSE /\ items' = <<>>
Clear    == exists /\ exists' = TRUE /\ items' = <<>>
Reset    == Clear                        \* indistinguishable from a new deque
\* r: handle of the new item, not one of a live item; -1: refused without effect
AppendItem(v, r) ==
    /\ exists /\ UNCHANGED exists
    /\ IF r = -1 THEN items' = items
       ELSE r \notin Handles /\ items' = Append(items, Item(r, v))
Prepend(v, r) ==
    /\ exists /\ UNCHANGED exists
    /\ IF r = -1 THEN items' = items
       ELSE r \notin Handles /\ items' = <<Item(r, v)>> \o items
PopFront(v, r) ==
    /\ exists /\ UNCHANGED exists
    /\ r = (items # <<>>)
    /\ IF r THEN v = Head(items).v /\ items' = Tail(items) ELSE items' = items
PopBack(v, r) ==
    /\ exists /\ UNCHANGED exists
    /\ r = (items # <<>>)
    /\ IF r THEN v = items[Len(items)].v /\ items' = Take(items, Len(items) - 1) ELSE items' = items

UniqueHandles == \A j, k \in 1..Len(items) : items[j].h = items[k].h => j = k
OnlyIfExists  == ~exists => items = <<>>
==============================================================================
