--------------------------------- MODULE Tree --------------------------------
(* tree/tree.c: trees of owned nodes.  A node is [d, v, k]: whether it holds *)
(* a value, the value's bytes, its children in order.  `slots` are the trees *)
(* the caller owns; a node is addressed by a slot and a path of child        *)
(* positions (0-based).                                                      *)
EXTENDS SeqOps
CONSTANTS NSlots
VARIABLES slots
vars == <<slots>>
Slots == 1..NSlots
Node(v) == [d |-> TRUE, v |-> v, k |-> <<>>]
Nil     == [d |-> FALSE, v |-> <<>>, k |-> <<>>]
\* a slot is a sequence of at most one tree
TreeInit == slots = [s \in Slots |-> <<>>]
Same == UNCHANGED vars
Has1(s) == slots[s] # <<>>

RECURSIVE At1(_, _)
At1(t, p) == IF p = <<>> THEN t ELSE At1(t.k[Head(p) + 1], Tail(p))
RECURSIVE Valid(_, _)
Valid(t, p) == IF p = <<>> THEN TRUE ELSE Head(p) >= 0 /\ Head(p) < Len(t.k) /\ Valid(t.k[Head(p) + 1], Tail(p))
RECURSIVE Put(_, _, _)                  \* the tree with the node at path p replaced by n
Put(t, p, n) == IF p = <<>> THEN n ELSE [t EXCEPT !.k[Head(p) + 1] = Put(t.k[Head(p) + 1], Tail(p), n)]

NodeAt(s, p) == At1(slots[s][1], p)
Ok(s, p)     == Has1(s) /\ Valid(slots[s][1], p)
Update(s, p, n) == slots' = [slots EXCEPT ![s] = <<Put(slots[s][1], p, n)>>]
KidPos(t, v) == FirstIdx(t.k, LAMBDA c : c.d /\ c.v = v)        \* first child holding exactly v, or -1

New(s, v, r)  == ~Has1(s) /\ slots' = [slots EXCEPT ![s] = IF r THEN <<Node(v)>> ELSE <<>>]
Free(s)       == slots' = [slots EXCEPT ![s] = <<>>]
Clear(s, p)   == Ok(s, p) /\ Update(s, p, Nil)
Set(s, p, v, r) ==
    /\ Ok(s, p) /\ (r => v # <<>>)
    /\ IF r THEN Update(s, p, [NodeAt(s, p) EXCEPT !.d = TRUE, !.v = v]) ELSE Same
InsertVal(s, p, v, r) ==
    /\ Ok(s, p) /\ (r => v # <<>>)
    /\ IF r THEN Update(s, p, [NodeAt(s, p) EXCEPT !.k = Append(@, Node(v))]) ELSE Same
\* the child tree changes owner
InsertNode(s, p, c, r) ==
    /\ Ok(s, p) /\ Has1(c) /\ s # c
    /\ r => slots[c][1].d
    /\ IF r THEN slots' = [slots EXCEPT ![s] = <<Put(slots[s][1], p, [NodeAt(s, p) EXCEPT !.k = Append(@, slots[c][1])])>>, ![c] = <<>>]
       ELSE Same
RmAt(s, p, i, r) ==                        \* by position, or by reference to the child at that position
    /\ Ok(s, p)
    /\ r = InRange(NodeAt(s, p).k, i)
    /\ IF r THEN Update(s, p, [NodeAt(s, p) EXCEPT !.k = RemoveIdx(@, i)]) ELSE Same
RmForeign(s, p, r) == Ok(s, p) /\ ~r /\ Same   \* a node that is not a child
RmVal(s, p, v, r) ==
    /\ Ok(s, p)
    /\ r = (v # <<>> /\ KidPos(NodeAt(s, p), v) >= 0)
    /\ IF r THEN Update(s, p, [NodeAt(s, p) EXCEPT !.k = RemoveIdx(@, KidPos(NodeAt(s, p), v))]) ELSE Same
FindVal(s, p, v, i) == Ok(s, p) /\ Same /\ i = (IF v = <<>> THEN -1 ELSE KidPos(NodeAt(s, p), v))
GetIdx(s, p, i, r)  == Ok(s, p) /\ Same /\ r = InRange(NodeAt(s, p).k, i)

RECURSIVE Size(_)
RECURSIVE SizeAll(_)
SizeAll(k) == IF k = <<>> THEN 0 ELSE Size(Head(k)) + SizeAll(Tail(k))
Size(t) == 1 + SizeAll(t.k)
Total == LET RECURSIVE f(_) f(s) == IF s = 0 THEN 0 ELSE SizeAll(slots[s]) + f(s - 1) IN f(NSlots)
==============================================================================
