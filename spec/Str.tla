---------------------------------- MODULE Str --------------------------------
(* str/str.c: two mutable texts.                                             *)
EXTENDS TextOps
VARIABLE str                     \* str[o] = [exists, s]
Objs == {1, 2}
None == [exists |-> FALSE, s |-> <<>>]
StrInit == str = [o \in Objs |-> None]
S(o) == str[o].s
Exists(o) == str[o].exists
Put(o, t) == str' = [str EXCEPT ![o].s = t]
Same == str' = str
\* an edit either yields t or is refused and changes nothing
Edit(o, t, r) == Exists(o) /\ IF r THEN Put(o, t) ELSE Same

New(o, t, r) == ~Exists(o) /\ IF r THEN str' = [str EXCEPT ![o] = [exists |-> TRUE, s |-> t]] ELSE Same
Release(o) == str' = [str EXCEPT ![o] = None]
ResetAll == str' = [o \in Objs |-> None]
Clear(o) == Exists(o) /\ Put(o, <<>>)
AddChar(o, c, r) == Edit(o, Append(S(o), c), r)
AddRep(o, c, n, r) == Edit(o, IF Huge(n) THEN S(o) ELSE S(o) \o Repeat(c, n), r) /\ (r => ~Huge(n))
AddText(o, t, r) == Edit(o, S(o) \o t, r)
SetText(o, t, r) == Edit(o, t, r)
\* formatting replaces or appends the formatted text and reports its length
Format(o, fresh, t, n) == Edit(o, IF fresh THEN t ELSE S(o) \o t, n >= 0) /\ (n >= 0 => n = Len(t))
ReplaceChar(o, a, b, r) ==
    /\ Exists(o)
    /\ r = (a # 0 /\ b # 0 /\ SomeC(S(o), LAMBDA c : c = a))
    /\ Put(o, IF r THEN MapS(S(o), LAMBDA c : IF c = a THEN b ELSE c) ELSE S(o))
ReplaceText(o, n, w, k, r) ==
    /\ Edit(o, Replace(S(o), n, w, k), r)
    /\ r => Count(S(o), n) > 0
\* positions lower..upper (upper included; beyond the end means the last one)
ReplaceRange(o, lo, hi, w, r) ==
    LET h == IF InRange(S(o), hi) THEN hi ELSE Len(S(o)) - 1
    IN  /\ r => (InRange(S(o), lo) /\ lo <= h)
        /\ Edit(o, IF r THEN SubSeq(S(o), 1, lo) \o w \o SubSeq(S(o), h + 2, Len(S(o))) ELSE S(o), r)
RangeOk(o, lo, hi) == InRange(S(o), lo) /\ (~InRange(S(o), hi) \/ lo <= hi)
Upper(o, r) == Exists(o) /\ Put(o, MapS(S(o), ToUpper)) /\ r = SomeC(S(o), IsLower)
Lower(o, r) == Exists(o) /\ Put(o, MapS(S(o), ToLower)) /\ r = SomeC(S(o), IsUpper)
Rev(o, r)   == Exists(o) /\ Put(o, Reverse(S(o))) /\ (Len(S(o)) >= 2 => r)
RmChar(o, c, n) == Exists(o) /\ Put(o, Keep(S(o), (1..255) \ {c})) /\ n = CountOf(S(o), c)
Trim(o, n) == LET t == Keep(S(o), (1..255) \ Spaces) IN Exists(o) /\ Put(o, t) /\ n = Len(S(o)) - Len(t)
\* ---- questions: nothing changes
CountChar(o, c, n) == Exists(o) /\ Same /\ n = CountOf(S(o), c)
CountText(o, t, n) == Exists(o) /\ Same /\ n = Count(S(o), t)
FindChar(o, c, n) == Exists(o) /\ Same /\ n = FindFrom(S(o), <<c>>, 0)
Offsets(o, t, m, v, r) ==        \* the first m occurrences (what follows the last one is unspecified)
    LET oc == IF t = <<>> THEN <<>> ELSE Occurrences(S(o), t)
    IN  /\ Exists(o) /\ Same
        /\ (t # <<>> /\ S(o) # <<>>) => r
        /\ r => \A i \in 1..m : IF i <= Len(oc) THEN v[i] = oc[i] ELSE (oc = <<>> => v[i] = -1)
Empty(o, r) == Exists(o) /\ Same /\ r = (S(o) = <<>>)
Palindrome(o, r) == Exists(o) /\ Same /\ r = (S(o) # <<>> /\ S(o) = Reverse(S(o)))
Compare(o, t, sg) == Exists(o) /\ Same /\ sg = Order(S(o), t)
\* scanning "%c%c" and "%d"
ScanChars(o, n, v) == /\ Exists(o) /\ Same
                      /\ n = IF S(o) = <<>> THEN -1 ELSE Min2(2, Len(S(o)))
                      /\ n > 0 => v = Take(S(o), n)
ScanInt(o, n, x) ==
    LET t == SkipSpaces(S(o))
        neg == t # <<>> /\ t[1] = 45
        u == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
    IN  /\ Exists(o) /\ Same
        /\ IF t = <<>> THEN n = -1
           ELSE IF u = <<>> THEN n \in {-1, 0}
           ELSE IF ~IsDigit(u[1]) THEN n = 0
           ELSE n = 1 /\ ((\A k \in 7..Len(u) : ~IsDigit(u[k])) => x = IF neg THEN -DigitsValue(u, 0) ELSE DigitsValue(u, 0))
TypeOK == \A o \in Objs : (~Exists(o) => S(o) = <<>>) /\ \A k \in 1..Len(S(o)) : S(o)[k] \in 1..255
==============================================================================
