------------------------------- MODULE MCArray -------------------------------
(* Exhaustive small configuration of Array with the capacity policy of the   *)
(* implementation (so that the printed transitions are reachable in it).     *)
EXTENDS Array, MCBase
CONSTANTS Vals, MaxLen, MaxCap, Second     \* Second: is object 2 used, too

RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p > n THEN p ELSE Pow2(n, 2 * p)
NextPow(n) == Pow2(n, 1)                   \* strictly greater power of two

Os  == IF Second THEN Objs ELSE {1}
Idx == 0..MaxLen \cup {-1}
Amt == {0, 1, 2, -1}
MCInit == ArrayInit /\ op = <<"reset", 1>>
Sz(n) == IF n < 4 THEN 4 ELSE n
Do(w) == op' = w
MCNext == \E o \in Os :
    \/ \E n \in {0, 5} : New(o, n, Sz(n), TRUE) /\ Do(<<"new", o, 0, n>>)
    \/ FromBuffer(o, 3, TRUE) /\ Do(<<"new", o, 2, 3>>)
    \/ Clear(o) /\ Do(<<"clear", o>>)
    \/ Release(o) /\ Exists(o) /\ Do(<<"release", o>>)
    \/ LET c == IF Cap(o) = 0 THEN 4 ELSE NextPow(2 * Cap(o)) IN Grow(o, c, TRUE) /\ Do(<<"grow", o>>)
    \/ \E n \in {0, 1, 2, 4} : LET c == IF Cap(o) = 0 \/ n = 0 THEN 4 ELSE NextPow(n)
                               IN Resize(o, n, c, c # Cap(o)) /\ Do(<<"resize", o, n>>)
    \/ \E e \in BOOLEAN : LET c == IF Cap(o) <= 4 \/ N(o) = 0 THEN Cap(o) ELSE IF e THEN N(o) ELSE NextPow(N(o))
                          IN Shrink(o, e, c, c < Cap(o)) /\ Do(<<"shrink", o, IF e THEN 1 ELSE 0>>)
    \/ Wipe(o) /\ Do(<<"wipe", o>>)
    \/ \E p \in Os : /\ \E r \in BOOLEAN : Add(o, p, r) /\ (r => N(o) + N(p) < Cap(o))
                     /\ Do(<<"add", o, IF o = p THEN 1 ELSE 0>>)
    \/ \E p \in Os, r \in BOOLEAN : Copy(o, p, r) /\ Do(<<"copy", o, IF o = p THEN 1 ELSE 0>>)
    \/ \E v \in Vals, r \in BOOLEAN : Insert(o, v, r) /\ Do(<<"insert", o, v>>)
    \/ \E v \in Vals, r \in -1..MaxCap : AppendItem(o, v, r) /\ Do(<<"append", o, v>>)
    \/ \E v \in Vals, r \in BOOLEAN : Cap(o) <= MaxLen /\ Fill(o, v, r) /\ Do(<<"fill", o, v>>)
    \/ \E v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ Pop(o, v, r) /\ Do(<<"pop", o>>)
    \/ \E v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ Pop(o, v, r) /\ Do(<<"pop_ex", o>>)
    \/ \E v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ Peek(o, v, r) /\ Do(<<"peek", o>>)
    \/ \E i \in Idx, v \in Vals \cup {-1}, r \in BOOLEAN : (r \/ v = -1) /\ Get(o, i, v, r) /\ Do(<<"get_ex", o, i>>)
    \/ \E i \in Idx, v \in Vals, r \in BOOLEAN : Set(o, i, v, r) /\ Do(<<"set", o, i, v>>)
    \/ \E r \in BOOLEAN : Swap(o, r) /\ Do(<<"swap", o>>)
    \/ \E i \in Idx, n \in Amt, r \in BOOLEAN : ShiftUp(o, i, n, r) /\ Do(<<"shift_up", o, i, n>>)
    \/ \E v \in Vals, r \in 0..MaxCap : Count(o, v, r) /\ Do(<<"count", o, v>>)
    \/ \E v \in Vals, i \in Idx, r \in -1..MaxCap : IndexOf(o, v, i, r) /\ Do(<<"index_of", o, v, i>>)
    \/ \E i \in Idx, r \in BOOLEAN : DelIndex(o, i, r) /\ Do(<<"del_index", o, i>>)
    \/ \E i \in Idx, n \in Amt, r \in BOOLEAN : DelRange(o, i, n, r) /\ Do(<<"del_range", o, i, n>>)
    \/ \E v \in Vals, r \in BOOLEAN : DelVal(o, v, r) /\ Do(<<"del_val", o, v>>)

MCSpec == MCInit /\ [][MCNext]_<<arr, op>>
Bound == \A o \in Objs : N(o) <= MaxLen /\ Cap(o) <= MaxCap
         /\ (o = 2 => N(o) <= 2 /\ Cap(o) <= 5)
View == arr
Emit == Edge(arr, arr')
==============================================================================
