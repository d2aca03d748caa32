-------------------------------- MODULE Links --------------------------------
(* Intrusive list helpers of harbol_common_includes.h.  One list of nodes    *)
(* drawn from a fixed pool; kind 1 = HarbolLink, 2 = HarbolBiLink,           *)
(* 3 = HarbolTriLink used as a doubly linked list.  `tailed`: the caller     *)
(* passes a tail reference.  Free nodes carry arbitrary stale links.         *)
EXTENDS SeqOps
VARIABLES kind, tailed, list
vars == <<kind, tailed, list>>
LinksInit == kind = 0 /\ tailed = FALSE /\ list = <<>>
Keep == UNCHANGED <<kind, tailed>>
Members == {list[k] : k \in 1..Len(list)}
PosOf(n) == CHOOSE k \in 1..Len(list) : list[k] = n

Mode(k, t) == kind' = k /\ tailed' = t /\ list' = <<>>
AddHead(n) == kind # 0 /\ n \notin Members /\ Keep /\ list' = <<n>> \o list
AddTail(n) == kind # 0 /\ tailed /\ n \notin Members /\ Keep /\ list' = Append(list, n)
AddAfter(m, n) == /\ kind # 0 /\ m \in Members /\ n \notin Members /\ Keep
                  /\ list' = InsertIdx(list, PosOf(m), <<n>>)
\* doubly linked lists only
Remove(n) == kind \in {2, 3} /\ tailed /\ n \in Members /\ Keep /\ list' = RemoveIdx(list, PosOf(n) - 1)
\* singly linked: the caller advances the head itself
PopHead == kind = 1 /\ list # <<>> /\ Keep /\ list' = Tail(list)
Same == UNCHANGED vars

NoRepeats == \A i, j \in 1..Len(list) : list[i] = list[j] => i = j
==============================================================================
