------------------------------ MODULE MCRandom -------------------------------
(* Interleavings of two generators; how far each has been drawn is abstracted *)
(* to the number of draws.  The laws check the block formula against the      *)
(* recurrence and the reference value of MT19937's recurrence.               *)
EXTENDS Random, MCBase
CONSTANTS MaxDraws, Counts
VARIABLE pos
vars == <<rnd, pos, op>>
MCInit == RndInit /\ pos = [g \in Gens |-> -1] /\ op = <<"reset">>
Do(w) == op' = w
MCNext == /\ UNCHANGED rnd
          /\ \E g \in Gens :
              \/ \E s \in {1, 4357, 65536} : pos' = [pos EXCEPT ![g] = 0] /\ Do(<<"seed", g, s>>)
              \/ \E n \in Counts, o \in {"draw", "drawf"} : pos[g] >= 0 /\ pos[g] + n <= MaxDraws /\ pos' = [pos EXCEPT ![g] = pos[g] + n] /\ Do(<<o, g, n>>)
              \/ \E h \in Gens : h # g /\ pos[h] >= 0 /\ pos' = [pos EXCEPT ![g] = pos[h]] /\ Do(<<"copy", g, h>>)
MCSpec == MCInit /\ [][MCNext]_vars
View == pos
Emit == Edge(pos, pos')
ASSUME \A v \in {<<1, 0>>, <<4357, 0>>, <<65535, 65535>>} : LET s == SeedFrom(<<v>>, N) IN BlockFast(s) = Block(s, N, M)
ASSUME \A a \in {<<0, 0>>, <<1, 0>>, <<65535, 32768>>, <<4660, 22136>>} : Shr(Shl(a, 7), 7) = <<a[1], a[2] % 512>> /\ Xor2(Xor2(a, MaskB), MaskB) = a
==============================================================================
