-------------------------------- MODULE Own ----------------------------------
(* Ownership of memory: every object in a slot owns a number of blocks, one   *)
(* of them its own structure when it lives on the heap.  Operations change    *)
(* the number; clearing returns all but the structure, releasing returns all; *)
(* handing an object over moves what it owns.                                 *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANTS Slots, Kinds, HeapKinds, StackKinds, TreeKind, CfgKind
VARIABLE ow
Free == [k |-> 0, hdr |-> 0, n |-> 0]
OwnInit == ow = [s \in Slots |-> Free]
TypeOK == \A s \in Slots : ow[s].n >= 0 /\ ow[s].hdr \in {0, 1} /\ (ow[s].k = 0 => ow[s] = Free)
H(b) == IF b THEN 1 ELSE 0
New(s, k, hdr, ret, delta) ==
    /\ ow[s].k = 0
    /\ IF ret THEN delta >= H(hdr) /\ ow' = [ow EXCEPT ![s] = [k |-> k, hdr |-> H(hdr), n |-> delta - H(hdr)]]
              ELSE delta = 0 /\ UNCHANGED ow
Use(s, ret, oom, delta) ==
    /\ ow[s].k # 0
    /\ ow[s].n + delta >= 0
    /\ IF oom /\ ~ret THEN delta >= 0 ELSE TRUE       \* room made before the failure may be kept
    /\ ow' = [ow EXCEPT ![s].n = @ + delta]
\* two objects: all but trees leave the second alone; a tree handed over is owned by the first
Two(s, c, ret, oom, delta) ==
    IF ow[s].k = TreeKind /\ ret
    THEN /\ ow[c].hdr = 1
         /\ ow' = [ow EXCEPT ![s].n = @ + ow[c].n + 1 + delta, ![c] = Free]
    ELSE Use(s, ret, oom, delta)
Clear(s, delta) == delta = -ow[s].n /\ ow' = [ow EXCEPT ![s].n = 0]
Release(s, delta) == delta = -(ow[s].n + ow[s].hdr) /\ ow' = [ow EXCEPT ![s] = Free]
RECURSIVE SumOf(_, _)
SumOf(o, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN o[s].n + o[s].hdr + SumOf(o, S \ {s})
==============================================================================
