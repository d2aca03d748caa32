-------------------------------- MODULE MCInt --------------------------------
(* Every helper at every power of two, of ten and of the generated base, one  *)
(* less and one more, and at all small words.                                *)
EXTENDS IntHelp, MCBase
CONSTANTS Small, MaxBits
vars == <<ih, op>>
W(w) == Trunc(w, 8)
Around(w) == {W(w)} \union {W(Add(w, <<1>>))} \union (IF IsZero(w) THEN {} ELSE {W(Sub(W(w), <<1>>))})
RECURSIVE Pow2(_)
Pow2(k) == IF k < 8 THEN <<2 ^ k>> ELSE <<0>> \o Pow2(k - 8)
Twos == UNION {Around(Pow2(k)) : k \in 0..MaxBits} \union {AllOnes}
Tens == UNION {Around(Pow(Ten, k)) : k \in 0..19}
Words == Twos \union Tens \union {W(OfNat(n)) : n \in 0..Small}
Aligns == {W(Pow2(k)) : k \in {0, 1, 2, 3, 4, 7, 8, 12, 31, 32, 63}} \union {W(<<>>)}
Bases == {W(OfNat(b)) : b \in {2, 3, 4, 5, 7, 10, 16, 60, 255, 256, 257, 65535, 65536}} \union {W(Pow2(16)), W(Pow2(32)), W(Add(Pow2(32), <<1>>)), W(Sub(Pow2(32), <<1>>)), W(Add(Pow2(63), <<1>>)), AllOnes}
Ends == {W(<<>>), W(<<5>>), W(<<6>>), Sub(W(<<>>), <<3>>), Sub(W(<<>>), <<2>>), AllOnes, W(Pow2(63)), Sub(W(Pow2(63)), <<1>>)}
Do(w) == op' = w
Stateless == \/ \E x \in Words : Do(<<"word", x>>)
             \/ \E x \in Twos, a \in Aligns : Do(<<"align", x, a>>)
             \/ \E n \in 0..255, k \in 0..5 : Do(<<"align", n, 2 ^ k>>)
             \/ \E n \in 0..40, k \in 0..4 : Do(<<"ptr", n, 2 ^ k>>)
             \/ \E x \in Ends, h \in Ends, o \in Ends : Do(<<"bounds", x, h, o>>)
             \/ \E n \in 0..8 : Do(<<"mask", n>>)
             \/ \E x \in Words : Do(<<"logn", x>>)
MCInit == IntInit /\ op = <<"reset">>
MCNext == \/ \E b \in Bases : (IF Less(b, <<3>>) THEN UNCHANGED ih ELSE ih' = [base |-> b]) /\ Do(<<"base", b>>)
          \/ ih.base # <<>> /\ (\E k \in 1..Len(Powers(ih.base)) : \E x \in Around(Powers(ih.base)[k]) : Do(<<"logn", x>>)) /\ UNCHANGED ih
          \/ ih.base = <<>> /\ Stateless /\ UNCHANGED ih
          \/ ih.base # <<>> /\ (\E x \in Twos : Do(<<"logn", x>>)) /\ UNCHANGED ih
MCSpec == MCInit /\ [][MCNext]_vars
View == ih
Emit == Edge(ih, ih')
\* --- laws of the vocabulary
LogLaw(x, b) == ~IsZero(x) => LET k == Log(x, b) IN Leq(Pow(b, k), x) /\ Less(x, Pow(b, k + 1))
ASSUME \A x \in Words, b \in {<<2>>, <<10>>, <<0, 1>>} : LogLaw(x, b)
ASSUME \A m, n \in {0, 1, 2, 255, 256, 257, 999, 30000} :
    /\ Same(Add(OfNat(m), OfNat(n)), OfNat(m + n)) /\ Same(Mul(OfNat(m), OfNat(n)), OfNat(m * n))
    /\ Cmp(OfNat(m), OfNat(n)) = (IF m < n THEN -1 ELSE IF m > n THEN 1 ELSE 0)
    /\ (m >= n => Same(Sub(W(OfNat(m)), OfNat(n)), OfNat(m - n)))
ASSUME \A n \in {0, 1, 5, 127, 128, 255, 256, 4095, 4096, 65537}, k \in 0..12 : Same(ModPow2(W(OfNat(n)), Pow2(k)), OfNat(n % (2 ^ k)))
ASSUME \A x \in Twos : Leq(x, FillOnes(x)) /\ (IsZero(x) \/ PowerOfTwo(Add(FillOnes(x), <<1>>)))
ASSUME \A x \in Words : Magnitude(x) = (IF Negative(x) THEN Sub(W(<<>>), x) ELSE x)
TableLaw == ih.base # <<>> => LET p == Powers(ih.base) IN Len(p) = Log(AllOnes, ih.base) + 1
==============================================================================
