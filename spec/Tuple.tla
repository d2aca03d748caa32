--------------------------------- MODULE Tuple -------------------------------
(* tuple/tuple.c: a record of fields laid out in one block.                  *)
EXTENDS SeqOps
LOCAL SX == INSTANCE SequencesExt
VARIABLES exists, sizes, packed, flds       \* flds: the bytes of every field
vars == <<exists, sizes, packed, flds>>
TupleInit == exists = FALSE /\ sizes = <<>> /\ packed = FALSE /\ flds = <<>>
Same == UNCHANGED vars

\* natural alignment: scalars by their size, larger aggregates by the word
Word == 8
Align(n) == IF n = 0 THEN 1 ELSE Min2(n, Word)
RoundUp(x, a) == ((x + a - 1) \div a) * a
\* sizes for which "naturally aligned" is meaningful
Scalar(n) == n \in {1, 2, 4, 8} \/ (n > 8 /\ n % 8 = 0)
AllScalar(ss) == \A i \in 1..Len(ss) : Scalar(ss[i])
\* of: the offset of every field; e: the end of the last one
Layout(ss, pk) == SX!FoldLeft(LAMBDA acc, n : LET o == IF pk THEN acc.e ELSE RoundUp(acc.e, Align(n)) IN [of |-> Append(acc.of, o), e |-> o + n],
                              [of |-> <<>>, e |-> 0], ss)
Offsets(ss, pk) == Layout(ss, pk).of
MaxAlign(ss) == IF ss = <<>> THEN 1 ELSE LET A == {Align(ss[i]) : i \in 1..Len(ss)} IN CHOOSE a \in A : \A b \in A : b <= a
Total(ss, pk) == IF ss = <<>> THEN 0
                 ELSE LET e == Layout(ss, pk).e
                      IN  IF pk THEN e ELSE RoundUp(e, MaxAlign(ss))
\* the block: fields at their places, zero padding
Block(ss, pk, fs) ==
    LET of == Offsets(ss, pk)
        ZeroTo(b, n) == b \o Repeat(0, n - Len(b))
    IN  ZeroTo(SX!FoldLeft(LAMBDA b, i : ZeroTo(b, of[i]) \o fs[i], <<>>, [i \in 1..Len(ss) |-> i]), Total(ss, pk))
\* what any layout must satisfy
Disjoint(ss, of) == \A i \in 1..Len(ss) - 1 : of[i] + ss[i] <= of[i + 1]
Inside(ss, of, tot) == \A i \in 1..Len(ss) : of[i] + ss[i] <= tot
Aligned(ss, of) == \A i \in 1..Len(ss) : of[i] % Align(ss[i]) = 0

New(ss, pk, r) ==
    /\ ~exists /\ exists' = r
    /\ sizes' = (IF r THEN ss ELSE <<>>) /\ packed' = (r /\ pk)
    /\ flds' = (IF r THEN [i \in 1..Len(ss) |-> Repeat(0, ss[i])] ELSE <<>>)
Release == exists' = FALSE /\ sizes' = <<>> /\ packed' = FALSE /\ flds' = <<>>
\* i: 0-based field; r: the field's place was returned (written)
Set(i, v, r) ==
    /\ exists /\ UNCHANGED <<exists, sizes, packed>>
    /\ r => InRange(sizes, i)
    /\ (InRange(sizes, i) /\ ~r) => At(sizes, i) = 0
    /\ flds' = IF r THEN [flds EXCEPT ![i + 1] = Take(v, Len(@))] ELSE flds

LayoutOK == (exists /\ AllScalar(sizes)) =>
    /\ Disjoint(sizes, Offsets(sizes, packed)) /\ Inside(sizes, Offsets(sizes, packed), Total(sizes, packed))
    /\ (~packed => (Aligned(sizes, Offsets(sizes, packed)) /\ Total(sizes, packed) % MaxAlign(sizes) = 0))
FieldSizes == exists => (\A i \in 1..Len(sizes) : Len(flds[i]) = sizes[i])
==============================================================================
