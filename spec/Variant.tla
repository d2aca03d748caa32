-------------------------------- MODULE Variant ------------------------------
(* variant/variant.c: variants holding a private copy of a value and a tag.  *)
EXTENDS SeqOps
CONSTANTS NVars
VARIABLES vs                     \* per variant: exists, holds a value, bytes, tag
vars == <<vs>>
None == [ex |-> FALSE, d |-> FALSE, v |-> <<>>, t |-> 0]
VInit == vs = [i \in 1..NVars |-> None]
Same == UNCHANGED vars
New(i, v, t, r) == ~vs[i].ex /\ vs' = [vs EXCEPT ![i] = IF r THEN [ex |-> TRUE, d |-> TRUE, v |-> v, t |-> t] ELSE None]
Set(i, v, r)  == vs[i].ex /\ vs' = IF r THEN [vs EXCEPT ![i].d = TRUE, ![i].v = v] ELSE vs
Clear(i)      == vs[i].ex /\ vs' = [vs EXCEPT ![i].d = FALSE, ![i].v = <<>>, ![i].t = 0]
Free(i)       == vs' = [vs EXCEPT ![i] = None]
ValueOnlyIfThere == \A i \in 1..NVars : (~vs[i].d => vs[i].v = <<>>) /\ (vs[i].d => vs[i].ex)
==============================================================================
